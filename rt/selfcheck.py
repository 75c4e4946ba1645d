"""Setup check: the reference model and the monitors themselves, before any verdict is believed."""

import numpy as np


def main():
    from .worker import setup_import

    setup_import()
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop

    from . import core, gen
    from . import refmodel as R

    rng = np.random.default_rng(0)
    M = type(DEFAULT_MAH_PARAMS)
    # 1. halo model of the reference == diffmah (third party, not under test)
    for _ in range(20):
        lgt0, fb, t0, _l = gen.cosmo(rng)
        t, _k = gen.grid(rng, 40, t0)
        m, _n = gen.halo(rng, 12, t, t0)
        d, lgm = mah_halopop(M(*m), t, lgt0)
        np.testing.assert_allclose(lgm, R.lgmh(R.col(m), t, lgt0), rtol=0, atol=1e-9)
        np.testing.assert_allclose(d, R.dmhdt(R.col(m), t, lgt0), rtol=1e-7, atol=1e-9)
    # 2. elementary pieces against closed forms
    z = np.linspace(-4, 4, 4001)
    pdf = np.where(np.abs(z) < 3, 35 / 96 * (1 - (z / 3) ** 2) ** 3, 0)
    num = np.concatenate([[0], np.cumsum(0.5 * (pdf[1:] + pdf[:-1]) * np.diff(z))])
    assert np.abs(num - R.tw_cdf(z)).max() < 1e-5
    u = rng.normal(0, 2, (8, 50))
    assert np.allclose(R.unbound_galaxy(R.bound_galaxy(u)), u, atol=1e-6)
    x = np.linspace(0, 10, 101)
    assert np.isclose(R.smh(x[1:], x[1:] ** 2)[-1], 1e9 * 1000 / 3, rtol=1e-3)
    assert np.allclose(R.dt_bins(x), 0.1)
    # 3. the monitors do alarm on a wrong value, a NaN, a wrong shape and an exception
    mon = core.Mon("SELF", "quick", 1, "x64")
    mon.ok(np.array([True, False]), "a")
    mon.close([1.0, np.nan], [1.0, 1.0], 1e-3, "b")
    mon.close([1.0], [1.0, 1.0], 1e-3, "c")
    mon.same([1, 2], [1, 3], "d")
    cases = core.Registry()

    @cases(quick=1)
    def boom(mon, rng):
        raise ValueError("x")

    core.run_cases(cases, mon, 0, 1, 0)
    assert sorted({v["oracle"] for v in mon.viols}) == ["a", "b", "boom:no-exception", "c", "d"]
    print("selfcheck: reference model agrees with diffmah and closed forms; monitors alarm")


if __name__ == "__main__":
    main()
