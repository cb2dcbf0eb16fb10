package verif;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Double arithmetic for TLC; a double is the tuple of its two 32-bit halves. */
public final class IEEE {

    private static double dbl(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final int hi = ((IntValue) t.elems[0]).val;
        final int lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble(((long) hi << 32) | (lo & 0xFFFFFFFFL));
    }

    private static Value val(final double d) {
        final long l = Double.doubleToRawLongBits(d);
        return new TupleValue(new Value[] { IntValue.gen((int) (l >> 32)), IntValue.gen((int) l) });
    }

    private static Value bool(final boolean b) {
        return b ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "FLit", module = "IEEE", warn = false)
    public static Value lit(final StringValue s) {
        final String t = s.val.toString();
        if (t.equals("inf")) return val(Double.POSITIVE_INFINITY);
        if (t.equals("-inf")) return val(Double.NEGATIVE_INFINITY);
        if (t.equals("nan")) return val(Double.NaN);
        return val(Double.parseDouble(t));
    }

    @TLAPlusOperator(identifier = "FOfInt", module = "IEEE", warn = false)
    public static Value ofInt(final IntValue n) { return val(n.val); }

    @TLAPlusOperator(identifier = "FAdd", module = "IEEE", warn = false)
    public static Value add(final Value a, final Value b) { return val(dbl(a) + dbl(b)); }

    @TLAPlusOperator(identifier = "FSub", module = "IEEE", warn = false)
    public static Value sub(final Value a, final Value b) { return val(dbl(a) - dbl(b)); }

    @TLAPlusOperator(identifier = "FMul", module = "IEEE", warn = false)
    public static Value mul(final Value a, final Value b) { return val(dbl(a) * dbl(b)); }

    @TLAPlusOperator(identifier = "FNeg", module = "IEEE", warn = false)
    public static Value neg(final Value a) { return val(-dbl(a)); }

    @TLAPlusOperator(identifier = "FLt", module = "IEEE", warn = false)
    public static Value lt(final Value a, final Value b) { return bool(dbl(a) < dbl(b)); }

    @TLAPlusOperator(identifier = "FLe", module = "IEEE", warn = false)
    public static Value le(final Value a, final Value b) { return bool(dbl(a) <= dbl(b)); }

    @TLAPlusOperator(identifier = "FAbs", module = "IEEE", warn = false)
    public static Value abs(final Value a) { final double d = dbl(a); return val(d >= 0 ? d : -d); }

    @TLAPlusOperator(identifier = "FMax", module = "IEEE", warn = false)
    public static Value max(final Value a, final Value b) {
        final double x = dbl(a), y = dbl(b);
        return val(x < y ? y : x);
    }

    @TLAPlusOperator(identifier = "FNear", module = "IEEE", warn = false)
    public static Value near(final Value a, final Value b) {
        final double x = dbl(a), y = dbl(b);
        if (x == y || (Double.isNaN(x) && Double.isNaN(y))) return bool(true);
        if (Double.isInfinite(x) || Double.isInfinite(y)) return bool(false);
        return bool(Math.abs(x - y) <= 1e-9 * Math.max(Math.abs(x), Math.abs(y)));
    }

    @TLAPlusOperator(identifier = "FNearAbs", module = "IEEE", warn = false)
    public static Value nearAbs(final Value a, final Value b, final Value t) {
        final double x = dbl(a), y = dbl(b);
        if (x == y || (Double.isNaN(x) && Double.isNaN(y))) return bool(true);
        return bool(Math.abs(x - y) <= dbl(t));
    }

    @TLAPlusOperator(identifier = "FSteps", module = "IEEE", warn = false)
    public static Value steps(final Value a, final Value b, final Value h) {
        final double x = dbl(a), y = dbl(b), s = dbl(h);
        final double slack = 1.01e-5 * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y)));
        final double n = Math.ceil((y - x + slack) / s) + 2;
        if (!(n >= 0)) return IntValue.gen(0);
        return IntValue.gen((int) Math.min(n, 2_000_000));
    }

    @TLAPlusOperator(identifier = "FStr", module = "IEEE", warn = false)
    public static Value str(final Value a) { return new StringValue(Double.toString(dbl(a))); }

    @TLAPlusOperator(identifier = "IntOf", module = "IEEE", warn = false)
    public static Value intOf(final StringValue s) {
        final java.math.BigInteger b = new java.math.BigInteger(s.val.toString());
        return IntValue.gen(b.bitLength() > 31 ? Integer.MAX_VALUE : b.intValue());
    }
}
