import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import zserio.runtime.*;
import zserio.runtime.creator.ZserioTreeCreator;
import zserio.runtime.io.*;
import zserio.runtime.typeinfo.*;
import zserio.runtime.walker.*;

/** Walks and builds object trees as told by model traces (see mc/trees.py). */
public final class Trees
{
    static String show(Object v)
    {
        if (v == null)
            return "n";
        if (v instanceof ZserioEnum)
            return "e" + ((ZserioEnum)v).getGenericValue();
        if (v instanceof ZserioBitmask)
            return "m" + ((ZserioBitmask)v).getGenericValue();
        if (v instanceof Boolean)
            return (Boolean)v ? "b1" : "b0";
        if (v instanceof Float || v instanceof Double)
            return String.format("f%016x", Double.doubleToLongBits(((Number)v).doubleValue()));
        if (v instanceof Number)
            return "i" + v;
        if (v instanceof String)
            return "s" + Replay.hex(((String)v).getBytes(StandardCharsets.UTF_8));
        if (v instanceof byte[])
            return "B" + Replay.hex((byte[])v);
        if (v instanceof BitBuffer)
        {
            final BitBuffer b = (BitBuffer)v;
            return "X" + b.getBitSize() + ":" + Replay.hex(Arrays.copyOf(b.getBuffer(), (int)((b.getBitSize() + 7) / 8)));
        }
        return "?" + v.getClass();
    }

    static final class Obs implements WalkObserver
    {
        final List<String> log;
        Obs(List<String> log)
        {
            this.log = log;
        }
        public void beginRoot(Object o)
        {
            log.add("R+");
        }
        public void endRoot(Object o)
        {
            log.add("R-");
        }
        public void beginArray(Object a, FieldInfo f)
        {
            log.add("A+" + f.getSchemaName() + ":" + Array.getLength(a));
        }
        public void endArray(Object a, FieldInfo f)
        {
            log.add("A-" + f.getSchemaName() + ":" + Array.getLength(a));
        }
        public void beginCompound(Object c, FieldInfo f, int i)
        {
            log.add("C+" + f.getSchemaName() + ":" + i);
        }
        public void endCompound(Object c, FieldInfo f, int i)
        {
            log.add("C-" + f.getSchemaName() + ":" + i);
        }
        public void visitValue(Object v, FieldInfo f, int i)
        {
            log.add("V" + f.getSchemaName() + ":" + i + "=" + show(v));
        }
    }

    static final class Script implements WalkFilter
    {
        final String bits;
        final List<String> log;
        int n = 0;
        Script(String bits, List<String> log)
        {
            this.bits = bits;
            this.log = log;
        }
        boolean ask(String what, FieldInfo f, int i)
        {
            final boolean r = n >= bits.length() || bits.charAt(n) == '1';
            n++;
            log.add(what + f.getSchemaName() + ":" + i + "=" + (r ? 1 : 0));
            return r;
        }
        public boolean beforeArray(Object a, FieldInfo f)
        {
            return ask("?A", f, -1);
        }
        public boolean afterArray(Object a, FieldInfo f)
        {
            return ask("!A", f, -1);
        }
        public boolean beforeCompound(Object a, FieldInfo f, int i)
        {
            return ask("?C", f, i);
        }
        public boolean afterCompound(Object a, FieldInfo f, int i)
        {
            return ask("!C", f, i);
        }
        public boolean beforeValue(Object a, FieldInfo f, int i)
        {
            return ask("?V", f, i);
        }
        public boolean afterValue(Object a, FieldInfo f, int i)
        {
            return ask("!V", f, i);
        }
    }

    static WalkFilter filter(String spec, List<String> log)
    {
        final String a = spec.substring(1);
        switch (spec.charAt(0))
        {
        case '-':
            return new DefaultWalkFilter();
        case 'D':
            return new DepthWalkFilter(Integer.parseInt(a));
        case 'L':
            return new ArrayLengthWalkFilter(Integer.parseInt(a));
        case 'R':
            return new RegexWalkFilter(new String(Replay.unhex(a), StandardCharsets.UTF_8));
        case '&':
            final List<WalkFilter> fs = new ArrayList<>();
            for (String s : a.split(";"))
                if (!s.isEmpty())
                    fs.add(filter(s, log));
            return new AndWalkFilter(fs);
        default:
            return new Script(a, log);
        }
    }

    static Object value(String tok, String pkg, ClassLoader cl) throws Exception
    {
        final String a = tok.substring(1);
        switch (tok.charAt(0))
        {
        case 'n':
            return null;
        case 'b':
            return a.equals("1");
        case 's':
            return new String(Replay.unhex(a), StandardCharsets.UTF_8);
        case 'B':
            return Replay.unhex(a);
        case 'X':
            return new BitBuffer(Replay.unhex(a.substring(a.indexOf(':') + 1)), Long.parseLong(a.substring(0, a.indexOf(':'))));
        case 'f':
            final double d = Double.longBitsToDouble(Long.parseUnsignedLong(a.substring(2), 16));
            if (a.startsWith("64"))
                return d;
            return (float)d;
        case 'e':
        {
            final String[] p = a.split(":");
            return Class.forName(pkg + "." + p[0], true, cl).getField(p[1]).get(null);
        }
        case 'm':
        {
            final String[] p = a.split(":");
            for (Constructor<?> c : Class.forName(pkg + "." + p[0], true, cl).getConstructors())
                if (c.getParameterCount() == 1 && (c.getParameterTypes()[0].isPrimitive() || c.getParameterTypes()[0] == BigInteger.class))
                    return c.newInstance(number(c.getParameterTypes()[0].getSimpleName().substring(0, 1).toUpperCase(), p[1]));
            throw new RuntimeException("no constructor");
        }
        default:
            return number(a.substring(0, 1), a.substring(1));
        }
    }

    static Object number(String k, String s)
    {
        switch (k)
        {
        case "B":
            return Byte.valueOf(s);
        case "S":
            return Short.valueOf(s);
        case "I":
            return Integer.valueOf(s);
        case "L":
            return Long.valueOf(s);
        default:
            return new BigInteger(s);
        }
    }

    static String task(String line, ClassLoader cl) throws Exception
    {
        final String[] f = line.split("\t", -1);
        final Class<?> c = Class.forName(f[1], true, cl);
        final String pkg = f[1].substring(0, f[1].lastIndexOf('.'));
        if (f[2].equals("K"))
        {
            final List<String> log = new ArrayList<>();
            try
            {
                final Object o = Replay.read(c, Replay.unhex(f[4]), 0, Integer.parseInt(f[3]), new long[1]);
                new Walker(new Obs(log), filter(f[5], log)).walk(o);
            }
            catch (Throwable t)
            {
                log.add("EXC " + Replay.cause(t));
            }
            return f[0] + "\t" + String.join(" ", log).replace('\n', ' ');
        }
        final List<String> res = new ArrayList<>();
        final StringBuilder trees = new StringBuilder();
        final ZserioTreeCreator cr = new ZserioTreeCreator((TypeInfo)c.getMethod("typeInfo").invoke(null));
        for (String op : f[3].split(" "))
        {
            final String[] p = op.split(",", -1);
            Object v = null;
            if (p[0].equals("SV") || p[0].equals("AV"))
                v = value(p[p.length - 1], pkg, cl);
            try
            {
                String r = "k";
                switch (p[0])
                {
                case "BR":
                    cr.beginRoot();
                    break;
                case "ER":
                    final Object o = cr.endRoot();
                    String w;
                    try
                    {
                        w = Replay.write(o, 0);
                    }
                    catch (Throwable t)
                    {
                        w = "EXC";
                    }
                    trees.append('\t').append(w);
                    break;
                case "BA":
                    cr.beginArray(p[1]);
                    break;
                case "EA":
                    cr.endArray();
                    break;
                case "BC":
                    cr.beginCompound(p[1]);
                    break;
                case "EC":
                    cr.endCompound();
                    break;
                case "SV":
                    cr.setValue(p[1], v);
                    break;
                case "GF":
                    r = "t" + cr.getFieldType(p[1]).getSchemaName();
                    break;
                case "BE":
                    cr.beginCompoundElement();
                    break;
                case "EE":
                    cr.endCompoundElement();
                    break;
                case "AV":
                    cr.addValueElement(v);
                    break;
                default:
                    r = "t" + cr.getElementType().getSchemaName();
                }
                res.add(r);
            }
            catch (ZserioError e)
            {
                res.add("r");
            }
            catch (Throwable t)
            {
                res.add("EXC-" + t.toString().replaceAll("\\s", "_"));
            }
        }
        return f[0] + "\t" + String.join(" ", res) + trees;
    }

    public static void main(String[] a) throws Exception
    {
        final List<String> lines = Files.readAllLines(Paths.get(a[0]), StandardCharsets.US_ASCII);
        final List<String> res = new ArrayList<>();
        for (String l : lines)
            res.add(task(l, Trees.class.getClassLoader()));
        Files.write(Paths.get(a[1]), res, StandardCharsets.UTF_8);
    }
}
