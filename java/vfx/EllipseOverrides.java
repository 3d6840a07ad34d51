package vfx;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Java implementation of Covered of module Ellipse (see spec/Ellipse.tla; compared with it by spec/EllipseSelf.tla). */
public final class EllipseOverrides implements ITLCOverrides {
    @Override
    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] { EllipseOverrides.class };
    }

    private static double f(final RecordValue r, final String k) {
        return RatValue.get(r.select(new StringValue(k))).dbl();
    }

    private static double sector(final double px, final double py, final double qx, final double qy) {
        return Math.atan2(px * qy - py * qx, px * qx + py * qy) / 2;
    }

    private static double wedge(final double px, final double py, final double qx, final double qy) {
        final double dx = qx - px, dy = qy - py, a = dx * dx + dy * dy, b = px * dx + py * dy, c = px * px + py * py - 1;
        final double disc = b * b - a * c;
        if (!(disc > 0)) {
            return sector(px, py, qx, qy);
        }
        final double w = Math.sqrt(disc), lo = Math.max(0, (-b - w) / a), hi = Math.min(1, (w - b) / a);
        if (!(lo < hi)) {
            return sector(px, py, qx, qy);
        }
        final double ux = px + lo * dx, uy = py + lo * dy, vx = px + hi * dx, vy = py + hi * dy;
        return (ux * vy - uy * vx) / 2 + (lo > 0 ? sector(px, py, ux, uy) : 0) + (hi < 1 ? sector(vx, vy, qx, qy) : 0);
    }

    @TLAPlusOperator(identifier = "Covered", module = "Ellipse", warn = false)
    public static Value Covered(final Value sh, final Value i, final Value j) {
        final RecordValue r = (RecordValue) sh.toRcd();
        final double x = RatValue.get(i).dbl() - f(r, "x"), y = RatValue.get(j).dbl() - f(r, "y");
        final double a = f(r, "a"), b = f(r, "b"), c = f(r, "c"), s = f(r, "s");
        final double[] sx = { -0.5, 0.5, 0.5, -0.5 }, sy = { -0.5, -0.5, 0.5, 0.5 }, u = new double[4], v = new double[4];
        for (int k = 0; k < 4; k++) {
            u[k] = ((x + sx[k]) * c + (y + sy[k]) * s) / a;
            v[k] = ((y + sy[k]) * c - (x + sx[k]) * s) / b;
        }
        double t = 0;
        for (int k = 0; k < 4; k++) {
            t += wedge(u[k], v[k], u[(k + 1) % 4], v[(k + 1) % 4]);
        }
        return RatValue.of(Math.max(0, Math.min(1, t * a * b)));
    }
}
