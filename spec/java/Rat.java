// Java evaluation of the operators of Rat.tla for TLC (module override).
// Numbers are strings in canonical form: "n", "n/d" (d > 1, lowest terms), "nan", "inf", "-inf".
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
    static final class Q {
        final BigInteger n, d; final int k; // k: 0 finite, 1 nan, 2 inf, 3 -inf
        StringValue s;
        Q(BigInteger n, BigInteger d) {
            int sg = d.signum();
            if (sg == 0) throw new ArithmeticException("zero denominator");
            if (sg < 0) { n = n.negate(); d = d.negate(); }
            if (!d.equals(BigInteger.ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d; this.k = 0;
        }
        Q(int k) { this.n = BigInteger.ZERO; this.d = BigInteger.ONE; this.k = k; }
        int sgn() { return k == 0 ? n.signum() : k == 2 ? 1 : k == 3 ? -1 : 0; }
        StringValue str() {
            if (s == null) {
                String t = k == 1 ? "nan" : k == 2 ? "inf" : k == 3 ? "-inf"
                    : d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
                StringValue v = new StringValue(t);
                Q old = cache.putIfAbsent(v.getVal(), this);
                s = v;
            }
            return s;
        }
    }
    static final ConcurrentHashMap<UniqueString, Q> cache = new ConcurrentHashMap<>(1 << 16);
    static final Q NAN = new Q(1), INF = new Q(2), NINF = new Q(3),
        ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);

    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (!(v instanceof StringValue)) {
            Value w = (Value) v; 
            throw new RuntimeException("Rat: not a number: " + w);
        }
        UniqueString u = ((StringValue) v).getVal();
        Q r = cache.get(u);
        if (r == null) {
            String t = u.toString();
            switch (t) {
                case "nan": r = NAN; break;
                case "inf": r = INF; break;
                case "-inf": r = NINF; break;
                default:
                    int i = t.indexOf('/');
                    try {
                        r = i < 0 ? new Q(new BigInteger(t), BigInteger.ONE)
                            : new Q(new BigInteger(t.substring(0, i)), new BigInteger(t.substring(i + 1)));
                    } catch (RuntimeException e) { throw new RuntimeException("Rat: not a number: " + t); }
            }
            cache.put(u, r);
        }
        return r;
    }
    static Q add(Q a, Q b) {
        if (a.k == 0 && b.k == 0) {
            if (a.d.equals(b.d)) return new Q(a.n.add(b.n), a.d);
            return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
        }
        if (a.k == 1 || b.k == 1) return NAN;
        if (a.k == 0) return b;
        if (b.k == 0) return a;
        return a.k == b.k ? a : NAN;
    }
    static Q neg(Q a) {
        return a.k == 0 ? new Q(a.n.negate(), a.d) : a.k == 1 ? NAN : a.k == 2 ? NINF : INF;
    }
    static Q sgnInf(int s) { return s > 0 ? INF : s < 0 ? NINF : NAN; }
    static Q mul(Q a, Q b) {
        if (a.k == 0 && b.k == 0) return new Q(a.n.multiply(b.n), a.d.multiply(b.d));
        if (a.k == 1 || b.k == 1) return NAN;
        return sgnInf(a.sgn() * b.sgn());
    }
    static Q div(Q a, Q b) {
        if (a.k == 1 || b.k == 1) return NAN;
        if (b.k != 0) return a.k == 0 ? ZERO : NAN;
        if (b.n.signum() == 0) return sgnInf(a.sgn());
        if (a.k != 0) return sgnInf(a.sgn() * b.sgn());
        return new Q(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    // -1, 0, 1, or 2 when not comparable
    static int cmp(Q a, Q b) {
        if (a.k == 1 || b.k == 1) return 2;
        if (a.k == 0 && b.k == 0) {
            if (a.d.equals(b.d)) return a.n.compareTo(b.n);
            return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
        }
        if (a.k == b.k) return 0;
        if (a.k == 2 || b.k == 3) return 1;
        return -1;
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int i(Value v) { return ((IntValue) v).val; }

    public static Value RStr(Value n, Value d) {
        return new Q(BigInteger.valueOf(i(n)), BigInteger.valueOf(i(d))).str();
    }
    public static Value RNum(Value a) { return IntValue.gen(q(a).n.intValueExact()); }
    public static Value RDen(Value a) { return IntValue.gen(q(a).d.intValueExact()); }
    public static Value RIsNan(Value a) { return b(q(a).k == 1); }
    public static Value RIsFin(Value a) { return b(q(a).k == 0); }
    public static Value RAdd(Value x, Value y) { return add(q(x), q(y)).str(); }
    public static Value RSub(Value x, Value y) { return add(q(x), neg(q(y))).str(); }
    public static Value RMul(Value x, Value y) { return mul(q(x), q(y)).str(); }
    public static Value RDiv(Value x, Value y) { return div(q(x), q(y)).str(); }
    public static Value RNeg(Value x) { return neg(q(x)).str(); }
    public static Value RAbs(Value x) { Q a = q(x); return (a.sgn() < 0 ? neg(a) : a).str(); }
    public static Value RLt(Value x, Value y) { return b(cmp(q(x), q(y)) == -1); }
    public static Value RLe(Value x, Value y) { int c = cmp(q(x), q(y)); return b(c == -1 || c == 0); }
    public static Value REq(Value x, Value y) { return b(cmp(q(x), q(y)) == 0); }
    public static Value RMax(Value x, Value y) {
        Q a = q(x), c = q(y);
        if (a.k == 1 || c.k == 1) return NAN.str();
        return (cmp(a, c) >= 0 ? a : c).str();
    }
    public static Value RMin(Value x, Value y) {
        Q a = q(x), c = q(y);
        if (a.k == 1 || c.k == 1) return NAN.str();
        return (cmp(a, c) <= 0 ? a : c).str();
    }
    static BigInteger floorDiv(BigInteger a, BigInteger b) {
        BigInteger[] r = a.divideAndRemainder(b);
        return r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0];
    }
    // half to even at k decimals
    public static Value RRound(Value x, Value k) {
        Q a = q(x);
        if (a.k != 0) return a.str();
        BigInteger p = BigInteger.TEN.pow(i(k));
        BigInteger n = a.n.multiply(p), d = a.d;
        BigInteger f = floorDiv(n, d);
        BigInteger r2 = n.subtract(f.multiply(d)).shiftLeft(1);
        int c = r2.compareTo(d);
        if (c > 0 || (c == 0 && f.testBit(0))) f = f.add(BigInteger.ONE);
        return new Q(f, p).str();
    }
    public static Value RTrunc(Value x) {
        Q a = q(x);
        return a.k != 0 ? a.str() : new Q(a.n.divide(a.d), BigInteger.ONE).str();
    }
    // the largest multiple of 10^-k whose square is not greater than x
    public static Value RSqrt(Value x, Value k) {
        Q a = q(x);
        if (a.k == 1 || a.sgn() < 0) return NAN.str();
        if (a.k == 2) return a.str();
        BigInteger p = BigInteger.TEN.pow(i(k));
        return new Q(a.n.multiply(p).multiply(p).divide(a.d).sqrt(), p).str();
    }
    static TupleValue tup(Value s) {
        Value t = s.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
        return (TupleValue) t;
    }
    public static Value RSum(Value s) {
        Q r = ZERO;
        for (Value v : tup(s).elems) r = add(r, q(v));
        return r.str();
    }
    public static Value RMaxSeq(Value s) {
        Q r = null;
        for (Value v : tup(s).elems) {
            Q a = q(v);
            if (a.k == 1) return NAN.str();
            if (r == null || cmp(a, r) > 0) r = a;
        }
        return (r == null ? NAN : r).str();
    }
    public static Value RMinSeq(Value s) {
        Q r = null;
        for (Value v : tup(s).elems) {
            Q a = q(v);
            if (a.k == 1) return NAN.str();
            if (r == null || cmp(a, r) < 0) r = a;
        }
        return (r == null ? NAN : r).str();
    }
}
