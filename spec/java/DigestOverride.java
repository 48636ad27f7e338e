import java.security.MessageDigest;
import javax.crypto.Mac;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/* Bulk evaluation of operators of module Digest through the JDK. CasesDigest compares
 * them with the pure TLA+ definitions (HMACdef, Hidef, Hash) on every run. */
public class DigestOverride implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] {DigestOverride.class}; }

    static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) b[i] = (byte) ((IntValue) t.elems[i]).val;
        return b;
    }
    static Value tuple(byte[] b) {
        Value[] e = new Value[b.length];
        for (int i = 0; i < b.length; i++) e[i] = IntValue.gen(b[i] & 255);
        return new TupleValue(e);
    }
    static String md(Value alg) {
        switch (((StringValue) alg).val.toString()) {
            case "sha1": return "SHA-1";
            case "sha256": return "SHA-256";
            case "sha512": return "SHA-512";
            default: return "MD5";
        }
    }
    static byte[] hmac(String a, byte[] k, byte[] m) throws Exception {
        int B = a.equals("SHA-512") ? 128 : 64;
        MessageDigest d = MessageDigest.getInstance(a);
        if (k.length > B) k = d.digest(k);
        byte[] i = new byte[B], o = new byte[B];
        for (int j = 0; j < B; j++) {
            byte x = j < k.length ? k[j] : 0;
            i[j] = (byte) (x ^ 0x36);
            o[j] = (byte) (x ^ 0x5c);
        }
        d.reset(); d.update(i); byte[] h = d.digest(m);
        d.reset(); d.update(o); return d.digest(h);
    }
    @TLAPlusOperator(identifier = "HMAC", module = "Digest", warn = false)
    public static Value HMAC(Value alg, Value k, Value m) throws Exception {
        return tuple(hmac(md(alg), bytes(k), bytes(m)));
    }
    @TLAPlusOperator(identifier = "FastHash", module = "Digest", warn = false)
    public static Value FastHash(Value alg, Value m) throws Exception {
        return tuple(MessageDigest.getInstance(md(alg)).digest(bytes(m)));
    }
    @TLAPlusOperator(identifier = "Hi", module = "Digest", warn = false)
    public static Value Hi(Value alg, Value pw, Value salt, Value it) throws Exception {
        String a = md(alg);
        byte[] s = bytes(salt), p = bytes(pw), m = new byte[s.length + 4];
        System.arraycopy(s, 0, m, 0, s.length);
        m[s.length + 3] = 1;
        byte[] u = hmac(a, p, m), acc = u.clone();
        int n = ((IntValue) it).val;
        for (int i = 1; i < n; i++) {
            u = hmac(a, p, u);
            for (int j = 0; j < u.length; j++) acc[j] ^= u[j];
        }
        return tuple(acc);
    }
    @TLAPlusOperator(identifier = "LongHash", module = "Digest", warn = false)
    public static Value LongHash(Value alg, Value unit, Value reps, Value tail) throws Exception {
        int n = ((IntValue) unit).val, r = ((IntValue) reps).val, t = ((IntValue) tail).val;
        byte[] u = new byte[n];
        for (int i = 0; i < n; i++) u[i] = (byte) (i * 31 + 7);
        MessageDigest d = MessageDigest.getInstance(md(alg));
        for (int i = 0; i < r; i++) d.update(u);
        d.update(u, 0, t);
        return tuple(d.digest());
    }
}
