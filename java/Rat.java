import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import tlc2.util.FP64;
import util.Assert;

/** BigInteger implementation of the operators of module Rat (see spec/Rat.tla). */
public class Rat {

    /** An exact rational num/den in lowest terms, den > 0, as a TLC value. */
    public static final class RV extends Value {
        final BigInteger n, d;
        RV(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        static RV of(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new RuntimeException("Rat: zero denominator");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            if (d.equals(BigInteger.ONE)) return new RV(n, d);
            int z = d.getLowestSetBit();
            if (z == d.bitLength() - 1) {             // a power of two
                z = n.signum() == 0 ? z : Math.min(z, n.getLowestSetBit());
                return z == 0 ? new RV(n, d) : new RV(n.shiftRight(z), d.shiftRight(z));
            }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            return new RV(n, d);
        }
        public byte getKind() { return USERVALUE; }
        public int compareTo(Object o) {
            RV b = (RV) o;
            return n.multiply(b.d).compareTo(b.n.multiply(d));
        }
        public boolean equals(Object o) {
            return o instanceof RV && n.equals(((RV) o).n) && d.equals(((RV) o).d);
        }
        public boolean member(Value v) { throw new RuntimeException("Rat: \\in a rational"); }
        public boolean isFinite() { throw new RuntimeException("Rat: not a set"); }
        public Value takeExcept(ValueExcept ex) {
            if (ex.idx < ex.path.length) throw new RuntimeException("Rat: EXCEPT into a rational");
            return ex.value;
        }
        public Value takeExcept(ValueExcept[] ex) {
            for (ValueExcept e : ex) if (e.idx < e.path.length) throw new RuntimeException("Rat: EXCEPT into a rational");
            return ex.length == 0 ? this : ex[ex.length - 1].value;
        }
        public int size() { throw new RuntimeException("Rat: size"); }
        public boolean isNormalized() { return true; }
        public Value normalize() { return this; }
        public boolean isDefined() { return true; }
        public IValue deepCopy() { return this; }
        public boolean mutates() { return false; }
        public boolean assignable(Value v) { return equals(v); }
        public long fingerPrint(long fp) {
            fp = FP64.Extend(fp, USERVALUE);
            for (byte b : n.toByteArray()) fp = FP64.Extend(fp, b);
            fp = FP64.Extend(fp, '/');
            for (byte b : d.toByteArray()) fp = FP64.Extend(fp, b);
            return fp;
        }
        public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
            return sb.append(str(this));
        }
    }

    static String str(RV r) { return r.n.toString() + "/" + r.d.toString(); }
    static final RV ZERO = new RV(BigInteger.ZERO, BigInteger.ONE);
    static final RV ONE = new RV(BigInteger.ONE, BigInteger.ONE);
    static RV r(Value v) { return (RV) v; }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Rat: sequence expected, got " + v);
        return ((TupleValue) t).elems;
    }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RInt(Value a) {
        return new RV(BigInteger.valueOf(((IntValue) a).val), BigInteger.ONE);
    }
    public static Value RQ(Value a, Value c) {
        return RV.of(BigInteger.valueOf(((IntValue) a).val), BigInteger.valueOf(((IntValue) c).val));
    }
    static RV add(RV a, RV c) {
        if (a.d.equals(c.d)) {
            return a.d.equals(BigInteger.ONE) ? new RV(a.n.add(c.n), a.d) : RV.of(a.n.add(c.n), a.d);
        }
        return RV.of(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
    }
    static RV neg(RV a) { return new RV(a.n.negate(), a.d); }
    static RV mul(RV a, RV c) { return RV.of(a.n.multiply(c.n), a.d.multiply(c.d)); }
    static RV inv(RV a) {
        if (a.n.signum() == 0) throw new RuntimeException("Rat: division by zero");
        return a.n.signum() < 0 ? new RV(a.d.negate(), a.n.negate()) : new RV(a.d, a.n);
    }
    public static Value RAdd(Value a, Value c) { return add(r(a), r(c)); }
    public static Value RNeg(Value a) { return neg(r(a)); }
    public static Value RSub(Value a, Value c) { return add(r(a), neg(r(c))); }
    public static Value RMul(Value a, Value c) { return mul(r(a), r(c)); }
    public static Value RInv(Value a) { return inv(r(a)); }
    public static Value RDiv(Value a, Value c) { return mul(r(a), inv(r(c))); }

    public static Value RSgn(Value a) { return IntValue.gen(r(a).n.signum()); }
    public static Value RLt(Value a, Value c) { return b(r(a).compareTo(r(c)) < 0); }
    public static Value RLe(Value a, Value c) { return b(r(a).compareTo(r(c)) <= 0); }
    public static Value REq(Value a, Value c) { return b(r(a).equals(r(c))); }
    public static Value RAbs(Value a) { return r(a).n.signum() < 0 ? neg(r(a)) : a; }
    public static Value RMax(Value a, Value c) { return r(a).compareTo(r(c)) < 0 ? c : a; }
    public static Value RMin(Value a, Value c) { return r(c).compareTo(r(a)) < 0 ? c : a; }
    public static Value RIsZero(Value a) { return b(r(a).n.signum() == 0); }

    public static Value RSum(Value s) {
        RV acc = ZERO;
        for (Value v : seq(s)) acc = add(acc, r(v));
        return acc;
    }
    public static Value RMaxS(Value s) {
        Value[] e = seq(s); RV m = r(e[0]);
        for (Value v : e) if (m.compareTo(v) < 0) m = r(v);
        return m;
    }
    public static Value RMinS(Value s) {
        Value[] e = seq(s); RV m = r(e[0]);
        for (Value v : e) if (r(v).compareTo(m) < 0) m = r(v);
        return m;
    }
    public static Value RDot(Value u, Value v) {
        Value[] a = seq(u), c = seq(v); RV acc = ZERO;
        for (int i = 0; i < a.length; i++) acc = add(acc, mul(r(a[i]), r(c[i])));
        return acc;
    }
    public static Value VAdd(Value u, Value v) {
        Value[] a = seq(u), c = seq(v), o = new Value[a.length];
        for (int i = 0; i < o.length; i++) o[i] = add(r(a[i]), r(c[i]));
        return new TupleValue(o);
    }
    public static Value VSub(Value u, Value v) {
        Value[] a = seq(u), c = seq(v), o = new Value[a.length];
        for (int i = 0; i < o.length; i++) o[i] = add(r(a[i]), neg(r(c[i])));
        return new TupleValue(o);
    }
    public static Value VScale(Value s, Value u) {
        Value[] a = seq(u), o = new Value[a.length];
        for (int i = 0; i < o.length; i++) o[i] = mul(r(s), r(a[i]));
        return new TupleValue(o);
    }

    public static Value RParse(Value s) {
        String t = ((StringValue) s).getVal().toString();
        int i = t.indexOf('/');
        if (i < 0) return new RV(new BigInteger(t), BigInteger.ONE);
        return RV.of(new BigInteger(t.substring(0, i)), new BigInteger(t.substring(i + 1)));
    }
    public static Value RStr(Value a) { return new StringValue(str(r(a))); }

    /** 25 significant decimal digits. */
    public static Value RDec(Value a) {
        RV x = r(a);
        java.math.MathContext mc = new java.math.MathContext(25);
        return new StringValue(new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), mc).toString());
    }

    // ---- transcendental functions: BITS significant bits ----
    static final int BITS = 256;
    /** n/d rounded down to BITS significant bits; a dyadic rational. */
    static RV cut(BigInteger n, BigInteger d) {
        if (n.signum() == 0) return ZERO;
        int s = BITS - (n.bitLength() - d.bitLength());
        BigInteger q = s >= 0 ? n.shiftLeft(s).divide(d) : n.divide(d.shiftLeft(-s));
        return s >= 0 ? RV.of(q, BigInteger.ONE.shiftLeft(s)) : new RV(q.shiftLeft(-s), BigInteger.ONE);
    }
    static RV rnd(RV a) {
        // short binary fractions stay as they are; sums of rounded numbers are then cheap
        return a.n.bitLength() < BITS && a.d.bitLength() < 2 * BITS
               && a.d.getLowestSetBit() == a.d.bitLength() - 1 ? a : cut(a.n, a.d);
    }
    public static Value RRnd(Value a) { return rnd(r(a)); }
    public static Value VRnd(Value u) {
        Value[] a = seq(u), o = new Value[a.length];
        for (int i = 0; i < o.length; i++) o[i] = rnd(r(a[i]));
        return new TupleValue(o);
    }
    public static Value RSqrt(Value a) {
        RV x = r(a);
        if (x.n.signum() < 0) throw new RuntimeException("Rat: sqrt of a negative number");
        if (x.n.signum() == 0) return ZERO;
        // s with  n * 4^s / d  of about 2 * BITS bits
        int s = BITS - (x.n.bitLength() - x.d.bitLength()) / 2;
        BigInteger q = s >= 0 ? x.n.shiftLeft(2 * s).divide(x.d) : x.n.divide(x.d.shiftLeft(-2 * s));
        q = q.sqrt();
        return s >= 0 ? RV.of(q, BigInteger.ONE.shiftLeft(s)) : new RV(q.shiftLeft(-s), BigInteger.ONE);
    }
    static RV decimal(String t) {
        int i = t.indexOf('.');
        return RV.of(new BigInteger(t.substring(0, i) + t.substring(i + 1)), BigInteger.TEN.pow(t.length() - i - 1));
    }
    static final RV PI = decimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899");
    static final RV LN10 = decimal("2.30258509299404568401799145468436420760110148862877297603332790096757260967735248");
    static final RV LN2 = decimal("0.693147180559945309417232121458176568075500134360255254120680009493393621969694715605863326996418687");
    static final int P = BITS + 32;
    static BigInteger fixed(RV x) { return x.n.shiftLeft(P).divide(x.d); }
    static final BigInteger LN2F = fixed(LN2);
    static RV exp(RV x) {
        // e^x = 2^m e^r with |r| <= ln 2, Taylor series of e^(r/256), squared eight times
        BigInteger f = fixed(x);
        BigInteger m = f.divide(LN2F);
        int e = m.intValueExact();
        BigInteger rr = f.subtract(m.multiply(LN2F)).shiftRight(8);
        BigInteger t = BigInteger.ONE.shiftLeft(P), sum = t;
        for (int i = 1; t.signum() != 0 && i < 60; i++) {
            t = t.multiply(rr).shiftRight(P).divide(BigInteger.valueOf(i));
            if (t.equals(BigInteger.ONE.negate())) t = BigInteger.ZERO;
            sum = sum.add(t);
        }
        for (int i = 0; i < 8; i++) sum = sum.multiply(sum).shiftRight(P);
        e -= P;
        return cut(e >= 0 ? sum.shiftLeft(e) : sum, e >= 0 ? BigInteger.ONE : BigInteger.ONE.shiftLeft(-e));
    }
    public static Value RExp(Value a) {
        RV x = r(a);
        // below e^-2000 the result is reported as 0 (far under any tolerance in use)
        if (x.compareTo(new RV(BigInteger.valueOf(-2000), BigInteger.ONE)) < 0) return ZERO;
        if (x.compareTo(new RV(BigInteger.valueOf(2000), BigInteger.ONE)) > 0) throw new RuntimeException("Rat: exp overflow");
        return exp(x);
    }
    public static Value RPi() { return PI; }
    public static Value RPow10(Value a) {
        RV q = r(a);
        if (q.d.equals(BigInteger.ONE)) {
            int e = q.n.intValueExact();
            BigInteger p = BigInteger.TEN.pow(Math.abs(e));
            return e >= 0 ? new RV(p, BigInteger.ONE) : new RV(BigInteger.ONE, p);
        }
        return exp(mul(q, LN10));
    }
}
