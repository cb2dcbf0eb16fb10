package verif;

import java.math.BigDecimal;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Text of numbers, and concatenation of many texts. */
public final class Text {

    /** The text of the C conversion %.{digits}g for the double with the given bits (16 hex digits). */
    static String general(final long bits, final int digits) {
        final double d = Double.longBitsToDouble(bits);
        final String sign = bits < 0 ? "-" : "";
        if (Double.isNaN(d)) return sign + "nan";
        if (Double.isInfinite(d)) return sign + "inf";
        if (d == 0) return sign + "0";
        final BigDecimal r = new BigDecimal(Math.abs(d)).round(new MathContext(digits, RoundingMode.HALF_EVEN));
        final int exp = r.precision() - r.scale() - 1;
        String ds = r.unscaledValue().toString();
        while (ds.length() > 1 && ds.endsWith("0")) ds = ds.substring(0, ds.length() - 1);
        final StringBuilder b = new StringBuilder(sign);
        if (exp < -4 || exp >= digits) {
            b.append(ds.charAt(0));
            if (ds.length() > 1) b.append('.').append(ds, 1, ds.length());
            b.append('e').append(exp < 0 ? '-' : '+');
            final int e = Math.abs(exp);
            if (e < 10) b.append('0');
            b.append(e);
        } else if (exp < 0) {
            b.append("0.");
            for (int k = -1; k > exp; k--) b.append('0');
            b.append(ds);
        } else {
            for (int k = 0; k <= exp; k++) b.append(k < ds.length() ? ds.charAt(k) : '0');
            if (ds.length() > exp + 1) b.append('.').append(ds, exp + 1, ds.length());
        }
        return b.toString();
    }

    @TLAPlusOperator(identifier = "NumText", module = "Text", warn = false)
    public static Value numText(final StringValue s, final IntValue digits) {
        return new StringValue(general(Long.parseUnsignedLong(s.val.toString(), 16), digits.val));
    }

    @TLAPlusOperator(identifier = "Join", module = "Text", warn = false)
    public static Value join(final Value s, final StringValue sep) {
        final TupleValue t = (TupleValue) s.toTuple();
        final StringBuilder b = new StringBuilder();
        for (int k = 0; k < t.elems.length; k++) {
            if (k > 0) b.append(sep.val.toString());
            b.append(((StringValue) t.elems[k]).val.toString());
        }
        return new StringValue(b.toString());
    }

    @TLAPlusOperator(identifier = "Starts", module = "Text", warn = false)
    public static Value starts(final StringValue s, final StringValue p) {
        return s.val.toString().startsWith(p.val.toString()) ? tlc2.value.impl.BoolValue.ValTrue
            : tlc2.value.impl.BoolValue.ValFalse;
    }
}
