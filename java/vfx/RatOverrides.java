package vfx;

import java.math.BigInteger;

import tlc2.overrides.ITLCOverrides;
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Java implementation of module Rat (see spec/Rat.tla for the definitions they implement). */
public final class RatOverrides implements ITLCOverrides {
    @Override
    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] { RatOverrides.class };
    }

    private static RatValue g(final Value v) {
        return RatValue.get(v);
    }

    private static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static Value[] elems(final Value v) {
        final Value t = v.toTuple();
        if (t == null) {
            throw new RuntimeException("module Rat: not a sequence: " + v);
        }
        return ((TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "N", module = "Rat", warn = false)
    public static Value N(final Value a) {
        return g(a);
    }

    @TLAPlusOperator(identifier = "NN", module = "Rat", warn = false)
    public static Value NN(final Value a) {
        if (a instanceof StringValue) {
            return RatValue.isNum(a) ? g(a) : a;
        }
        if (a instanceof TupleValue) {
            final Value[] e = ((TupleValue) a).elems, r = new Value[e.length];
            for (int i = 0; i < e.length; i++) {
                r[i] = NN(e[i]);
            }
            return new TupleValue(r);
        }
        if (a instanceof RecordValue) {
            final RecordValue rec = (RecordValue) a;
            final Value[] r = new Value[rec.values.length];
            for (int i = 0; i < r.length; i++) {
                r[i] = NN(rec.values[i]);
            }
            return new RecordValue(rec.names, r, rec.isNormalized());
        }
        return a;
    }

    @TLAPlusOperator(identifier = "RIsNum", module = "Rat", warn = false)
    public static Value RIsNum(final Value a) {
        return b(RatValue.isNum(a));
    }

    @TLAPlusOperator(identifier = "RKind", module = "Rat", warn = false)
    public static Value RKind(final Value a) {
        final String k;
        if (RatValue.isNum(a)) {
            k = "num";
        } else if (a instanceof StringValue) {
            k = ((StringValue) a).val.toString().equals("None") ? "none" : "str";
        } else if (a instanceof BoolValue) {
            k = "bool";
        } else if (a instanceof RecordValue) {
            k = "rec";
        } else {
            k = a.toTuple() != null ? "seq" : "other";
        }
        return new StringValue(k);
    }

    @TLAPlusOperator(identifier = "RQ", module = "Rat", warn = false)
    public static Value RQ(final Value a, final Value c) {
        return g(a).div(g(c));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value RAdd(final Value a, final Value c) {
        return g(a).add(g(c));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value RSub(final Value a, final Value c) {
        return g(a).sub(g(c));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value RMul(final Value a, final Value c) {
        return g(a).mul(g(c));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value RDiv(final Value a, final Value c) {
        return g(a).div(g(c));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value RNeg(final Value a) {
        return g(a).neg();
    }

    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value RAbs(final Value a) {
        final RatValue x = g(a);
        return x.nan() || x.sgn() >= 0 ? x : x.neg();
    }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value RLt(final Value a, final Value c) {
        final RatValue x = g(a), y = g(c);
        return b(!x.nan() && !y.nan() && x.cmp(y) < 0);
    }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value RLe(final Value a, final Value c) {
        final RatValue x = g(a), y = g(c);
        return b(!x.nan() && !y.nan() && x.cmp(y) <= 0);
    }

    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value REq(final Value a, final Value c) {
        final RatValue x = g(a), y = g(c);
        return b(!x.nan() && !y.nan() && x.cmp(y) == 0);
    }

    @TLAPlusOperator(identifier = "RSame", module = "Rat", warn = false)
    public static Value RSame(final Value a, final Value c) {
        final RatValue x = g(a), y = g(c);
        return b(x.nan() && y.nan() || !x.nan() && !y.nan() && x.cmp(y) == 0);
    }

    private static boolean close(final RatValue x, final RatValue y, final RatValue rt, final RatValue at) {
        if (x.nan() || y.nan()) {
            return x.nan() && y.nan();
        }
        if (!x.fin() || !y.fin()) {
            return x.cmp(y) == 0;
        }
        final RatValue ax = x.sgn() < 0 ? x.neg() : x, ay = y.sgn() < 0 ? y.neg() : y;
        final RatValue m = ax.cmp(ay) > 0 ? ax : ay;
        RatValue df = x.sub(y);
        if (df.sgn() < 0) {
            df = df.neg();
        }
        return df.cmp(at.add(rt.mul(m))) <= 0;
    }

    @TLAPlusOperator(identifier = "RClose", module = "Rat", warn = false)
    public static Value RClose(final Value a, final Value c, final Value rt, final Value at) {
        return b(close(g(a), g(c), g(rt), g(at)));
    }

    @TLAPlusOperator(identifier = "RSeqClose", module = "Rat", warn = false)
    public static Value RSeqClose(final Value a, final Value c, final Value rt, final Value at) {
        final Value[] x = elems(a), y = elems(c);
        if (x.length != y.length) {
            return b(false);
        }
        final RatValue r = g(rt), t = g(at);
        for (int i = 0; i < x.length; i++) {
            if (!close(g(x[i]), g(y[i]), r, t)) {
                return b(false);
            }
        }
        return b(true);
    }

    @TLAPlusOperator(identifier = "RMin", module = "Rat", warn = false)
    public static Value RMin(final Value a, final Value c) {
        final RatValue x = g(a), y = g(c);
        return x.nan() || y.nan() ? RatValue.QNAN : x.cmp(y) <= 0 ? x : y;
    }

    @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
    public static Value RMax(final Value a, final Value c) {
        final RatValue x = g(a), y = g(c);
        return x.nan() || y.nan() ? RatValue.QNAN : x.cmp(y) >= 0 ? x : y;
    }

    @TLAPlusOperator(identifier = "RIsNaN", module = "Rat", warn = false)
    public static Value RIsNaN(final Value a) {
        return b(g(a).nan());
    }

    @TLAPlusOperator(identifier = "RIsFin", module = "Rat", warn = false)
    public static Value RIsFin(final Value a) {
        return b(g(a).fin());
    }

    @TLAPlusOperator(identifier = "RIsInt", module = "Rat", warn = false)
    public static Value RIsInt(final Value a) {
        final RatValue x = g(a);
        return b(x.fin() && x.d.equals(BigInteger.ONE));
    }

    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value RFloor(final Value a) {
        final RatValue x = g(a);
        if (!x.fin()) {
            throw new RuntimeException("RFloor of " + x);
        }
        return IntValue.gen(x.floor().intValueExact());
    }

    @TLAPlusOperator(identifier = "RRound", module = "Rat", warn = false)
    public static Value RRound(final Value a) { // half to even
        final RatValue x = g(a);
        final BigInteger f = x.floor();
        final RatValue r = x.sub(RatValue.of(f, BigInteger.ONE));
        final int c = r.cmp(RatValue.of(BigInteger.ONE, BigInteger.TWO));
        BigInteger k = f;
        if (c > 0 || c == 0 && f.testBit(0)) {
            k = f.add(BigInteger.ONE);
        }
        return IntValue.gen(k.intValueExact());
    }

    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value RSum(final Value a) {
        RatValue s = RatValue.Q0;
        for (final Value v : elems(a)) {
            s = s.add(g(v));
        }
        return s;
    }

    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value RDot(final Value a, final Value c) {
        final Value[] x = elems(a), y = elems(c);
        if (x.length != y.length) {
            throw new RuntimeException("RDot: lengths differ");
        }
        RatValue s = RatValue.Q0;
        for (int i = 0; i < x.length; i++) {
            s = s.add(g(x[i]).mul(g(y[i])));
        }
        return s;
    }

    // --------------------------------------------- real functions (correct to about 1e-15 relative)
    private static Value d(final double x) {
        return RatValue.of(x);
    }

    @TLAPlusOperator(identifier = "RRd", module = "Rat", warn = false)
    public static Value RRd(final Value a) {
        return d(g(a).dbl());
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value RSqrt(final Value a) {
        return d(Math.sqrt(g(a).dbl()));
    }

    @TLAPlusOperator(identifier = "RExp", module = "Rat", warn = false)
    public static Value RExp(final Value a) {
        return d(Math.exp(g(a).dbl()));
    }

    @TLAPlusOperator(identifier = "RLn", module = "Rat", warn = false)
    public static Value RLn(final Value a) {
        return d(Math.log(g(a).dbl()));
    }

    @TLAPlusOperator(identifier = "RLog10", module = "Rat", warn = false)
    public static Value RLog10(final Value a) {
        return d(Math.log10(g(a).dbl()));
    }

    @TLAPlusOperator(identifier = "RPow", module = "Rat", warn = false)
    public static Value RPow(final Value a, final Value c) {
        return d(Math.pow(g(a).dbl(), g(c).dbl()));
    }

    @TLAPlusOperator(identifier = "RSin", module = "Rat", warn = false)
    public static Value RSin(final Value a) {
        return d(Math.sin(g(a).dbl()));
    }

    @TLAPlusOperator(identifier = "RCos", module = "Rat", warn = false)
    public static Value RCos(final Value a) {
        return d(Math.cos(g(a).dbl()));
    }

    @TLAPlusOperator(identifier = "RAtan2", module = "Rat", warn = false)
    public static Value RAtan2(final Value a, final Value c) {
        return d(Math.atan2(g(a).dbl(), g(c).dbl()));
    }

    /** Regularised lower incomplete gamma function P(a, x) (series / continued fraction). */
    private static double gammaP(final double a, final double x) {
        if (Double.isNaN(a) || Double.isNaN(x) || a <= 0 || x < 0) {
            return Double.NaN;
        }
        if (x == 0) {
            return 0;
        }
        if (Double.isInfinite(x)) {
            return 1;
        }
        final double pre = Math.exp(-x + a * Math.log(x) - lgamma(a));
        if (x < a + 1) {
            double ap = a, del = 1 / a, sum = del;
            for (int i = 0; i < 2000 && Math.abs(del) > Math.abs(sum) * 1e-17; i++) {
                ap++;
                del *= x / ap;
                sum += del;
            }
            return sum * pre;
        }
        double b = x + 1 - a, c = 1e300, dd = 1 / b, h = dd;
        for (int i = 1; i < 2000; i++) {
            final double an = -i * (i - a);
            b += 2;
            dd = an * dd + b;
            if (Math.abs(dd) < 1e-300) {
                dd = 1e-300;
            }
            c = b + an / c;
            if (Math.abs(c) < 1e-300) {
                c = 1e-300;
            }
            dd = 1 / dd;
            final double del = dd * c;
            h *= del;
            if (Math.abs(del - 1) < 1e-16) {
                break;
            }
        }
        return 1 - pre * h;
    }

    /** log Gamma(a), a > 0: Stirling series after shifting the argument above 20. */
    private static double lgamma(final double a) {
        double x = a, s = 0;
        while (x < 20) {
            s -= Math.log(x);
            x += 1;
        }
        final double i = 1 / x, i2 = i * i;
        return s + (x - 0.5) * Math.log(x) - x + 0.5 * Math.log(2 * Math.PI)
                + i * (1.0 / 12 - i2 * (1.0 / 360 - i2 * (1.0 / 1260 - i2 * (1.0 / 1680 - i2 / 1188))));
    }

    @TLAPlusOperator(identifier = "RGammaP", module = "Rat", warn = false)
    public static Value RGammaP(final Value a, final Value x) {
        return d(gammaP(g(a).dbl(), g(x).dbl()));
    }

    @TLAPlusOperator(identifier = "RLnGamma", module = "Rat", warn = false)
    public static Value RLnGamma(final Value a) {
        return d(lgamma(g(a).dbl()));
    }

    /** RTry(e, f): the value of e, or f if e cannot be evaluated (so that verdicts are total). */
    @Evaluation(definition = "RTry", module = "Rat", warn = false, silent = true)
    public static Value RTry(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
            final TLCState s1, final int control, final CostModel cm) {
        try {
            final Value v = tool.eval(args[0], c, s0, s1, control, cm);
            v.deepNormalize();
            return v;
        } catch (final RuntimeException | StackOverflowError e) {
            if (System.getenv("VF_DEBUG") != null) {
                e.printStackTrace();
            }
            return tool.eval(args[1], c, s0, s1, control, cm);
        }
    }

    @TLAPlusOperator(identifier = "RPi", module = "Rat", warn = false)
    public static Value RPi() {
        return d(Math.PI);
    }

    @TLAPlusOperator(identifier = "RStr", module = "Rat", warn = false)
    public static Value RStr(final Value a) {
        return new StringValue(g(a).str());
    }

    @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
    public static Value RShow(final Value a) {
        return new StringValue(String.valueOf(g(a).dbl()));
    }
}
