package vfx;

import java.io.IOException;
import java.math.BigInteger;
import java.util.Random;

import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.UniqueString;

/**
 * Exact extended rational number (finite rational, +inf, -inf, NaN) as a TLC value. Every operator of
 * module Rat accepts an integer, a numeral string "#p/q" / "#nan" / "#inf" / "#-inf", or such a value.
 */
public final class RatValue extends Value {
    static final int FIN = 0, PINF = 1, NINF = -1, NAN = 2;
    static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE;

    public static final RatValue Q0 = new RatValue(ZERO, ONE), Q1 = new RatValue(ONE, ONE);
    public static final RatValue QNAN = new RatValue(NAN), QPINF = new RatValue(PINF), QNINF = new RatValue(NINF);

    final int kind;
    final BigInteger n, d; // d > 0, gcd(n, d) = 1 when kind == FIN

    private RatValue(final int kind) {
        this.kind = kind;
        this.n = ZERO;
        this.d = ONE;
    }

    private RatValue(final BigInteger n, final BigInteger d) {
        this.kind = FIN;
        this.n = n;
        this.d = d;
    }

    static RatValue of(BigInteger n, BigInteger d) {
        final int s = d.signum();
        if (s == 0) {
            final int t = n.signum();
            return t == 0 ? QNAN : t > 0 ? QPINF : QNINF;
        }
        if (s < 0) {
            n = n.negate();
            d = d.negate();
        }
        if (n.signum() == 0) {
            return Q0;
        }
        if (d.equals(ONE)) {
            return new RatValue(n, d);
        }
        final int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (tz > 0) {
            n = n.shiftRight(tz);
            d = d.shiftRight(tz);
        }
        if (d.bitCount() != 1) {
            final BigInteger g = n.gcd(d);
            if (!g.equals(ONE)) {
                n = n.divide(g);
                d = d.divide(g);
            }
        }
        return new RatValue(n, d);
    }

    static RatValue of(final long n) {
        return new RatValue(BigInteger.valueOf(n), ONE);
    }

    static RatValue of(final double x) {
        if (Double.isNaN(x)) {
            return QNAN;
        }
        if (Double.isInfinite(x)) {
            return x > 0 ? QPINF : QNINF;
        }
        if (x == 0) {
            return Q0;
        }
        final long bits = Double.doubleToLongBits(x);
        final int exp = (int) ((bits >> 52) & 0x7ffL);
        long man = exp == 0 ? (bits & 0xfffffffffffffL) << 1 : (bits & 0xfffffffffffffL) | 0x10000000000000L;
        if (bits < 0) {
            man = -man;
        }
        final int e = exp - 1075;
        final BigInteger m = BigInteger.valueOf(man);
        return e >= 0 ? of(m.shiftLeft(e), ONE) : of(m, ONE.shiftLeft(-e));
    }

    static RatValue parse(final String str) {
        if (str.isEmpty() || str.charAt(0) != '#') {
            throw new RuntimeException("not a numeral: " + str);
        }
        final String s = str.substring(1);
        switch (s) {
        case "nan":
            return QNAN;
        case "inf":
            return QPINF;
        case "-inf":
            return QNINF;
        default:
            break;
        }
        final int b = s.indexOf('b'); // "m" b "e" means m * 2^e
        if (b >= 0) {
            final BigInteger m = new BigInteger(s.substring(0, b));
            final int e = Integer.parseInt(s.substring(b + 1));
            return e >= 0 ? of(m.shiftLeft(e), ONE) : of(m, ONE.shiftLeft(-e));
        }
        final int i = s.indexOf('/');
        if (i < 0) {
            return of(new BigInteger(s), ONE);
        }
        return of(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    }

    static boolean isNum(final Value v) {
        return v instanceof RatValue || v instanceof IntValue
                || v instanceof StringValue && ((StringValue) v).val.toString().startsWith("#");
    }

    static RatValue get(final Value v) {
        if (v instanceof RatValue) {
            return (RatValue) v;
        }
        if (v instanceof IntValue) {
            return of(((IntValue) v).val);
        }
        if (v instanceof StringValue) {
            return parse(((StringValue) v).val.toString());
        }
        throw new RuntimeException("module Rat: not a number: " + v);
    }

    double dbl() {
        if (kind == PINF) {
            return Double.POSITIVE_INFINITY;
        }
        if (kind == NINF) {
            return Double.NEGATIVE_INFINITY;
        }
        if (kind == NAN) {
            return Double.NaN;
        }
        if (n.signum() == 0) {
            return 0.0;
        }
        // scale so that the quotient has >= 64 significant bits, then round once (ties: sticky bit)
        final int shift = 66 - (n.abs().bitLength() - d.bitLength());
        BigInteger[] qr;
        if (shift >= 0) {
            qr = n.abs().shiftLeft(shift).divideAndRemainder(d);
        } else {
            qr = n.abs().divideAndRemainder(d.shiftLeft(-shift));
        }
        BigInteger q = qr[0];
        if (qr[1].signum() != 0) {
            q = q.setBit(0);
        }
        final double r = Math.scalb(q.doubleValue(), -shift);
        return n.signum() < 0 ? -r : r;
    }

    boolean fin() {
        return kind == FIN;
    }

    boolean nan() {
        return kind == NAN;
    }

    RatValue neg() {
        return kind == FIN ? new RatValue(n.negate(), d) : kind == NAN ? this : kind == PINF ? QNINF : QPINF;
    }

    RatValue add(final RatValue o) {
        if (kind == FIN && o.kind == FIN) {
            if (d.equals(o.d)) {
                return of(n.add(o.n), d);
            }
            if (d.bitCount() == 1 && o.d.bitCount() == 1) {
                final int a = d.getLowestSetBit(), b = o.d.getLowestSetBit();
                return a < b ? of(n.shiftLeft(b - a).add(o.n), o.d) : of(n.add(o.n.shiftLeft(a - b)), d);
            }
            return of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        }
        if (kind == NAN || o.kind == NAN) {
            return QNAN;
        }
        if (kind == FIN) {
            return o;
        }
        if (o.kind == FIN || o.kind == kind) {
            return this;
        }
        return QNAN;
    }

    RatValue sub(final RatValue o) {
        return add(o.neg());
    }

    int sgn() {
        return kind == FIN ? n.signum() : kind;
    }

    RatValue mul(final RatValue o) {
        if (kind == FIN && o.kind == FIN) {
            return of(n.multiply(o.n), d.multiply(o.d));
        }
        if (kind == NAN || o.kind == NAN) {
            return QNAN;
        }
        final int s = sgn() * o.sgn();
        return s == 0 ? QNAN : s > 0 ? QPINF : QNINF;
    }

    RatValue div(final RatValue o) {
        if (kind == FIN && o.kind == FIN) {
            return of(n.multiply(o.d), d.multiply(o.n));
        }
        if (kind == NAN || o.kind == NAN || kind != FIN && o.kind != FIN) {
            return QNAN;
        }
        if (kind == FIN) {
            return Q0;
        }
        return o.sgn() >= 0 ? this : neg();
    }

    /** -1, 0, 1; NaN is not comparable (callers check). */
    int cmp(final RatValue o) {
        if (kind == FIN && o.kind == FIN) {
            if (d.equals(o.d)) {
                return n.compareTo(o.n);
            }
            return n.multiply(o.d).compareTo(o.n.multiply(d));
        }
        return Integer.compare(kind, o.kind);
    }

    BigInteger floor() {
        final BigInteger[] qr = n.divideAndRemainder(d);
        return qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
    }

    String str() {
        switch (kind) {
        case NAN:
            return "#nan";
        case PINF:
            return "#inf";
        case NINF:
            return "#-inf";
        default:
            return d.equals(ONE) ? "#" + n : "#" + n + "/" + d;
        }
    }

    // ------------------------------------------------------------------ Value
    @Override
    public byte getKind() {
        return REALVALUE;
    }

    @Override
    public int compareTo(final Object o) {
        final RatValue r = get((Value) o);
        return nan() || r.nan() ? (nan() ? 1 : 0) - (r.nan() ? 1 : 0) : cmp(r);
    }

    @Override
    public boolean equals(final Object o) {
        if (!(o instanceof Value) || !isNum((Value) o)) {
            return false;
        }
        return compareTo(o) == 0;
    }

    @Override
    public boolean member(final Value v) {
        throw new RuntimeException("membership in a number");
    }

    @Override
    public boolean isFinite() {
        return true;
    }

    @Override
    public Value takeExcept(final ValueExcept ex) {
        return ex.value;
    }

    @Override
    public Value takeExcept(final ValueExcept[] exs) {
        throw new RuntimeException("EXCEPT on a number");
    }

    @Override
    public int size() {
        throw new RuntimeException("size of a number");
    }

    @Override
    public boolean mutates() {
        return false;
    }

    @Override
    public boolean isNormalized() {
        return true;
    }

    @Override
    public Value normalize() {
        return this;
    }

    @Override
    public boolean isDefined() {
        return true;
    }

    @Override
    public IValue deepCopy() {
        return this;
    }

    @Override
    public void write(final IValueOutputStream vos) throws IOException {
        new StringValue(UniqueString.uniqueStringOf(str())).write(vos);
    }

    @Override
    public long fingerPrint(final long fp) {
        return new StringValue(UniqueString.uniqueStringOf(str())).fingerPrint(fp);
    }

    @Override
    public IValue permute(final IMVPerm perm) {
        return this;
    }

    @Override
    public StringBuffer toString(final StringBuffer sb, final int offset, final boolean swallow) {
        if (kind == FIN) {
            if (d.equals(ONE) && n.bitLength() < 62) {
                return sb.append(n);
            }
            return sb.append(dbl());
        }
        return sb.append(str().substring(1));
    }

    public tlc2.tool.TLCState toState() {
        return null;
    }

    public tlc2.value.impl.TLCVariable toTLCVariable(final tlc2.value.impl.TLCVariable v, final Random rnd) {
        return super.toTLCVariable(v, rnd);
    }
}
