import java.math.BigInteger;
import tlc2.value.impl.*;

/**
 * Fast versions of the operators of the specification Ints on natural
 * numbers; TLC uses a static method of the class named like a module in place
 * of the operator of the same name.  The definitions in Ints.tla are the
 * meaning: IntsSame.tla compares the two.
 */
public class Ints {
    private static BigInteger big(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int n = t.elems.length;
        byte[] b = new byte[(15 * n) / 8 + 2];
        int at = b.length - 1, have = 0, acc = 0;
        for (int k = 0; k < n; k++) {
            acc |= ((IntValue) t.elems[k]).val << have;
            have += 15;
            while (have >= 8) {
                b[at--] = (byte) acc;
                acc >>>= 8;
                have -= 8;
            }
        }
        if (have > 0) b[at] = (byte) acc;
        return new BigInteger(1, b);
    }

    private static Value nat(BigInteger x) {
        int n = (x.bitLength() + 14) / 15;
        Value[] e = new Value[n];
        byte[] b = x.toByteArray();
        int at = b.length - 1, have = 0, acc = 0;
        for (int k = 0; k < n; k++) {
            while (have < 15) {
                acc |= (at >= 0 ? b[at--] & 255 : 0) << have;
                have += 8;
            }
            e[k] = IntValue.gen(acc & 32767);
            acc >>>= 15;
            have -= 15;
        }
        return new TupleValue(e);
    }

    private static int num(Value v) {
        return ((IntValue) v).val;
    }

    private static Value pair(Value q, Value r) {
        return new RecordValue(new util.UniqueString[] {util.UniqueString.of("q"), util.UniqueString.of("r")},
                               new Value[] {q, r}, false);
    }

    public static Value AddN(Value a, Value b) { return nat(big(a).add(big(b))); }
    public static Value SubN(Value a, Value b) { return nat(big(a).subtract(big(b))); }
    public static Value CmpN(Value a, Value b) { return IntValue.gen(big(a).compareTo(big(b))); }
    public static Value MulSmall(Value a, Value d) { return nat(big(a).multiply(BigInteger.valueOf(num(d)))); }
    public static Value MulN(Value a, Value b) { return nat(big(a).multiply(big(b))); }
    public static Value DivSmall(Value a, Value d) {
        BigInteger[] z = big(a).divideAndRemainder(BigInteger.valueOf(num(d)));
        return pair(nat(z[0]), IntValue.gen(z[1].intValue()));
    }
    public static Value DivN(Value a, Value b) {
        BigInteger[] z = big(a).divideAndRemainder(big(b));
        return pair(nat(z[0]), nat(z[1]));
    }
    public static Value ShlN(Value a, Value k) { return nat(big(a).shiftLeft(num(k))); }
    public static Value ShrN(Value a, Value k) { return nat(big(a).shiftRight(num(k))); }
    public static Value PowN(Value a, Value n) { return nat(big(a).pow(num(n))); }
    public static Value BitsN(Value a) { return IntValue.gen(big(a).bitLength()); }
    public static Value DecN(Value a) { return new StringValue(big(a).toString()); }
}
