import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import zserio.runtime.DebugStringUtil;
import zserio.runtime.io.BitBuffer;
import zserio.runtime.io.SerializeUtil;
import zserio.runtime.io.Writer;
import zserio.runtime.walker.ArrayLengthWalkFilter;
import zserio.runtime.walker.WalkFilter;

/** Runs the operations of mc/files.py. args: operations file, answers file */
public class Files
{
    static byte[] raw(String t)
    {
        if (t.equals("-")) return new byte[0];
        final byte[] b = new byte[t.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte)Integer.parseInt(t.substring(2 * i, 2 * i + 2), 16);
        return b;
    }
    static String plain(byte[] b)
    {
        final StringBuilder s = new StringBuilder();
        for (byte x : b) s.append(String.format("%02x", x));
        return s.toString();
    }
    static String hx(byte[] b) { return b.length == 0 ? "-" : plain(b); }
    static Writer make(String kind, String s, int arg)
    {
        final String[] p = s.split(",", -1);
        switch (kind)
        {
        case "I": return new ff.Item((byte)Integer.parseInt(p[0]), new String(raw(p[1].isEmpty() ? "-" : p[1]), StandardCharsets.UTF_8));
        case "P":
            final String[] xs = p[0].isEmpty() ? new String[0] : p[0].split("\\.");
            final short[] a = new short[xs.length];
            for (int i = 0; i < a.length; i++) a[i] = Short.parseShort(xs[i]);
            return new ff.Par((short)arg, a, p[1].equals("1"));
        case "E": return ff.En.toEnum(Integer.parseInt(s));
        default: return new ff.Mk((byte)Integer.parseInt(s));
        }
    }
    static Class<?> cls(String kind) { return kind.equals("I") ? ff.Item.class : kind.equals("P") ? ff.Par.class : kind.equals("E") ? ff.En.class : ff.Mk.class; }
    static Object[] args(String kind, String arg) { return kind.equals("P") ? new Object[] {Short.valueOf(arg)} : new Object[0]; }
    static String shown(Object o)
    {
        if (o instanceof ff.Item) return ((ff.Item)o).getA() + "," + plain(((ff.Item)o).getS().getBytes(StandardCharsets.UTF_8));
        if (o instanceof ff.Par)
        {
            final StringBuilder b = new StringBuilder();
            for (short x : ((ff.Par)o).getXs()) b.append(b.length() == 0 ? "" : ".").append(x);
            return b + "," + (((ff.Par)o).getLast() ? 1 : 0);
        }
        if (o instanceof ff.En) return "" + ((ff.En)o).getValue();
        return "" + ((ff.Mk)o).getValue();
    }
    static String both(Object a, Object b)
    {
        final String s = shown(a);
        return b == null || shown(b).equals(s) ? s : s + " but with a preallocated size " + shown(b);
    }
    static final SerializeUtil.PreallocatedArraySize SIZE = new SerializeUtil.PreallocatedArraySize(1);
    static int count = 0;
    static String run(String[] f) throws Exception
    {
        final boolean variant = (count++ & 1) != 0;
        switch (f[0])
        {
        case "ser":
            final BitBuffer bb = SerializeUtil.serialize(make(f[1], f[2], Integer.parseInt(f[3])));
            return bb.getBitSize() + " " + hx(bb.getBuffer());
        case "sby": return hx(SerializeUtil.serializeToBytes(make(f[1], f[2], Integer.parseInt(f[3]))));
        case "sfi":
            if (variant) SerializeUtil.serializeToFile(make(f[1], f[2], Integer.parseInt(f[3])), new File(f[4]));
            else SerializeUtil.serializeToFile(make(f[1], f[2], Integer.parseInt(f[3])), f[4]);
            return "ok";
        case "des":
            final BitBuffer in = new BitBuffer(raw(f[3]), Integer.parseInt(f[2]));
            return both(SerializeUtil.deserialize(cls(f[1]), in, args(f[1], f[4])), variant ? SerializeUtil.deserialize(cls(f[1]), in, SIZE, args(f[1], f[4])) : null);
        case "dby":
            return both(SerializeUtil.deserializeFromBytes(cls(f[1]), raw(f[2]), args(f[1], f[3])), variant ? SerializeUtil.deserializeFromBytes(cls(f[1]), raw(f[2]), SIZE, args(f[1], f[3])) : null);
        case "dfi":
            if (count % 3 == 0)
                return shown(variant ? SerializeUtil.deserializeFromFile(cls(f[1]), new File(f[2]), SIZE, args(f[1], f[3])) : SerializeUtil.deserializeFromFile(cls(f[1]), f[2], SIZE, args(f[1], f[3])));
            return shown(variant ? SerializeUtil.deserializeFromFile(cls(f[1]), new File(f[2]), args(f[1], f[3])) : SerializeUtil.deserializeFromFile(cls(f[1]), f[2], args(f[1], f[3])));
        case "jst": case "jss": case "jfi":
            final Object o = make(f[1], f[2], Integer.parseInt(f[3]));
            final WalkFilter w = f[5].equals("L1") ? new ArrayLengthWalkFilter(1) : null;
            final boolean d = f[4].equals("D");
            final int n = d ? 4 : Integer.parseInt(f[4]);
            if (f[0].equals("jst"))
                return hx((d ? w == null ? DebugStringUtil.toJsonString(o) : DebugStringUtil.toJsonString(o, w) : w == null ? DebugStringUtil.toJsonString(o, n) : DebugStringUtil.toJsonString(o, n, w)).getBytes(StandardCharsets.UTF_8));
            if (f[0].equals("jss"))
            {
                final StringWriter s = new StringWriter();
                if (d) { if (w == null) DebugStringUtil.toJsonStream(o, s); else DebugStringUtil.toJsonStream(o, s, w); }
                else { if (w == null) DebugStringUtil.toJsonStream(o, s, n); else DebugStringUtil.toJsonStream(o, s, n, w); }
                return hx(s.toString().getBytes(StandardCharsets.UTF_8));
            }
            if (d) { if (w == null) DebugStringUtil.toJsonFile(o, f[6]); else DebugStringUtil.toJsonFile(o, f[6], w); }
            else { if (w == null) DebugStringUtil.toJsonFile(o, f[6], n); else DebugStringUtil.toJsonFile(o, f[6], n, w); }
            return "ok";
        case "kst": case "kss": case "kfi":
            final zserio.runtime.typeinfo.TypeInfo t = f[1].equals("I") ? ff.Item.typeInfo() : ff.Par.typeInfo();
            final Object[] a = args(f[1], f[3]);
            if (f[0].equals("kfi"))
                return shown(variant ? DebugStringUtil.fromJsonFile(t, f[2], a) : DebugStringUtil.fromJsonFile(cls(f[1]), f[2], a));
            final String text = new String(raw(f[2]), StandardCharsets.UTF_8);
            if (f[0].equals("kst"))
                return shown(variant ? DebugStringUtil.fromJsonString(t, text, a) : DebugStringUtil.fromJsonString(cls(f[1]), text, a));
            return shown(variant ? DebugStringUtil.fromJsonStream(t, new StringReader(text), a) : DebugStringUtil.fromJsonStream(cls(f[1]), new StringReader(text), a));
        case "put": java.nio.file.Files.write(Paths.get(f[1]), raw(f[2])); return "ok";
        case "del": java.nio.file.Files.deleteIfExists(Paths.get(f[1])); return "ok";
        case "cat": return java.nio.file.Files.exists(Paths.get(f[1])) ? hx(java.nio.file.Files.readAllBytes(Paths.get(f[1]))) : "NONE";
        default:
            int k = 0;
            for (File x : new File("/proc/self/fd").listFiles())
                try { if (java.nio.file.Files.readSymbolicLink(x.toPath()).toString().startsWith(f[1])) k++; } catch (IOException e) { }
            return "" + k;
        }
    }
    public static void main(String[] args) throws Exception
    {
        try (BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(args[0]), StandardCharsets.UTF_8));
             PrintStream out = new PrintStream(new BufferedOutputStream(new FileOutputStream(args[1])), false, "UTF-8"))
        {
            for (String line = in.readLine(); line != null; line = in.readLine())
            {
                String r;
                try { r = run(line.split(" ", -1)); } catch (Exception e) { r = "ERR"; }
                out.println(r);
            }
        }
    }
}
