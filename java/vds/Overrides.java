package vds;

import java.nio.charset.StandardCharsets;
import java.security.MessageDigest;
import java.util.Arrays;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Interprets the hash algebra of Hash.tla by SHA-256, byte strings being written
 * as lower case hex. With this class on TLC's class path a specification computes
 * the hashes the implementation has to produce; without it the same
 * specification runs over symbolic terms.
 */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { Overrides.class }; }

    private static final char[] HEX = "0123456789abcdef".toCharArray();

    private static final ThreadLocal<MessageDigest> MD = ThreadLocal.withInitial(() -> {
        try { return MessageDigest.getInstance("SHA-256"); } catch (Exception e) { throw new RuntimeException(e); }
    });

    static byte[] un(Value v) {
        String s = ((StringValue) v).val.toString();
        if ((s.length() & 1) != 0) throw new RuntimeException("odd hex string " + s);
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++)
            b[i] = (byte) ((Character.digit(s.charAt(2 * i), 16) << 4) | Character.digit(s.charAt(2 * i + 1), 16));
        return b;
    }

    static String hex(byte[] b) {
        char[] c = new char[b.length * 2];
        for (int i = 0; i < b.length; i++) { c[2 * i] = HEX[(b[i] >> 4) & 15]; c[2 * i + 1] = HEX[b[i] & 15]; }
        return new String(c);
    }

    static byte[] h(int tag, byte[]... parts) {
        MessageDigest md = MD.get();
        md.reset();
        if (tag >= 0) md.update((byte) tag);
        for (byte[] p : parts) md.update(p);
        return md.digest();
    }

    static StringValue str(byte[] b) { return new StringValue(hex(b)); }

    static final byte[][] DEF = new byte[257][];
    static {
        DEF[256] = h(0);
        for (int i = 255; i >= 0; i--) DEF[i] = h(1, DEF[i + 1], DEF[i + 1]);
    }

    @TLAPlusOperator(identifier = "LeafH", module = "Hash", warn = false)
    public static Value leafH(final Value x) { return str(h(0, un(x))); }

    @TLAPlusOperator(identifier = "NodeH", module = "Hash", warn = false)
    public static Value nodeH(final Value l, final Value r) { return str(h(1, un(l), un(r))); }

    @TLAPlusOperator(identifier = "Sha", module = "Hash", warn = false)
    public static Value sha(final Value x) { return str(h(-1, un(x))); }

    /** Hex of the UTF-8 bytes of a string. */
    @TLAPlusOperator(identifier = "Hex", module = "Hash", warn = false)
    public static Value hexOf(final Value x) {
        return str(((StringValue) x).val.toString().getBytes(StandardCharsets.UTF_8));
    }

    /** Hex of the base64 text of bytes. */
    @TLAPlusOperator(identifier = "B64", module = "Hash", warn = false)
    public static Value b64(final Value x) { return str(java.util.Base64.getEncoder().encode(un(x))); }

    /** The bits of the SHA-256 of a key, most significant first. */
    @TLAPlusOperator(identifier = "KeyBits", module = "Hash", warn = false)
    public static Value keyBits(final Value k) {
        byte[] d = h(-1, un(k));
        Value[] v = new Value[256];
        for (int i = 0; i < 256; i++) v[i] = IntValue.gen((d[i / 8] >> (7 - i % 8)) & 1);
        return new TupleValue(v);
    }

    /** Concatenation of the strings of a sequence in increasing order. */
    @TLAPlusOperator(identifier = "SortConcat", module = "Hash", warn = false)
    public static Value sortConcat(final Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        String[] a = new String[t.size()];
        for (int i = 0; i < a.length; i++) a[i] = ((StringValue) t.elems[i]).val.toString();
        Arrays.sort(a);
        return new StringValue(String.join("", a));
    }

    /** SparseMap!Def for the 256-level tree, checked against its definition by MCHash. */
    @TLAPlusOperator(identifier = "Def", module = "SparseMap", warn = false)
    public static Value def(final Value d) { return str(DEF[((IntValue) d).val]); }

    /** SparseMap!FoldUp for the 256-level tree: only an accelerator, checked against its definition by MCHash. */
    @TLAPlusOperator(identifier = "FoldUp", module = "SparseMap", warn = false)
    public static Value foldUp(final Value bits, final Value leaf, final Value from, final Value to) {
        TupleValue t = (TupleValue) bits.toTuple();
        byte[] x = un(leaf);
        int lo = ((IntValue) to).val;
        for (int i = ((IntValue) from).val; i > lo; i--)
            x = ((IntValue) t.elems[i - 1]).val == 1 ? h(1, DEF[i], x) : h(1, x, DEF[i]);
        return str(x);
    }

    /** SparseMap!FoldSparse for the 256-level tree, checked against its definition by MCHash. */
    @TLAPlusOperator(identifier = "FoldSparse", module = "SparseMap", warn = false)
    public static Value foldSparse(final Value bits, final Value leaf, final Value pairs, final Value from) {
        TupleValue t = (TupleValue) bits.toTuple();
        TupleValue ps = (TupleValue) pairs.toTuple();
        int n = ((IntValue) from).val;
        byte[][] s = new byte[n + 1][];
        for (int j = ps.elems.length - 1; j >= 0; j--) {
            TupleValue p = (TupleValue) ps.elems[j].toTuple();
            int d = ((IntValue) p.elems[0]).val;
            if (d >= 1 && d <= n) s[d] = un(p.elems[1]);
        }
        byte[] x = un(leaf);
        for (int i = n; i > 0; i--) {
            byte[] y = s[i] == null ? DEF[i] : s[i];
            x = ((IntValue) t.elems[i - 1]).val == 1 ? h(1, y, x) : h(1, x, y);
        }
        return str(x);
    }
}
