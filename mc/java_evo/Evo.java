import java.io.*;
import java.lang.reflect.*;
import java.nio.file.*;
import java.util.*;
import zserio.runtime.io.*;

/** Histories of objects with extended fields: lines  id TAB class TAB fields TAB operation...  ->  id TAB observation... */
public class Evo
{
    static byte[] unhex(String s)
    {
        final byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; ++i)
            b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    static String hex(byte[] b, long bits)
    {
        final StringBuilder s = new StringBuilder();
        for (int i = 0; i < (bits + 7) / 8; ++i)
            s.append(String.format("%02x", b[i] & 0xff));
        return s.toString();
    }

    static String cap(String s)
    {
        return Character.toUpperCase(s.charAt(0)) + s.substring(1);
    }

    static Method method(Class<?> c, String n)
    {
        for (Method m : c.getMethods())
            if (m.getName().equals(n))
                return m;
        return null;
    }

    static Object call(Object o, String n, Object... args) throws Throwable
    {
        final Method m = method(o.getClass(), n);
        if (m == null)
            throw new IllegalStateException("no method " + n);
        try
        {
            return m.invoke(o, args);
        }
        catch (InvocationTargetException e)
        {
            throw e.getCause();
        }
    }

    static Object read(Class<?> c, String bits, long[] consumed) throws Throwable
    {
        final String[] p = bits.split(":", -1);
        final ByteArrayBitStreamReader in = new ByteArrayBitStreamReader(unhex(p[1]), Long.parseLong(p[0]));
        final Constructor<?> k = c.getConstructor(BitStreamReader.class);
        try
        {
            final Object o = k.newInstance(in);
            consumed[0] = in.getBitPosition();
            return o;
        }
        catch (InvocationTargetException e)
        {
            throw e.getCause();
        }
    }

    static String seen(Object o, String[] fields)
    {
        final StringBuilder s = new StringBuilder();
        for (String f : fields)
        {
            for (String q : new String[] {"Present", "Set", "Used"})
            {
                final Method m = method(o.getClass(), "is" + cap(f) + q);
                if (m == null)
                    s.append('-');
                else
                    try
                    {
                        s.append((Boolean)m.invoke(o) ? '1' : '0');
                    }
                    catch (Throwable t)
                    {
                        s.append('x');
                    }
            }
        }
        s.append(';');
        try
        {
            s.append(((zserio.runtime.SizeOf)o).bitSizeOf());
        }
        catch (Throwable t)
        {
            s.append('x');
        }
        s.append(';');
        try
        {
            final ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            ((zserio.runtime.io.Writer)o).initializeOffsets();
            ((zserio.runtime.io.Writer)o).write(w);
            s.append(w.getBitPosition()).append(':').append(hex(w.toByteArray(), w.getBitPosition()));
        }
        catch (Throwable t)
        {
            s.append('x');
        }
        return s.toString();
    }

    public static void main(String[] args) throws Throwable
    {
        try (PrintWriter out = new PrintWriter(args[1]))
        {
            for (String line : Files.readAllLines(Paths.get(args[0])))
            {
                final String[] f = line.split("\t", -1);
                final Class<?> c = Class.forName(f[1]);
                final String[] fields = f[2].isEmpty() ? new String[0] : f[2].split(",");
                final StringBuilder res = new StringBuilder(f[0]);
                Object o = null;
                for (int i = 3; i < f.length; ++i)
                {
                    final String op = f[i];
                    String head = "ok";
                    try
                    {
                        if (op.charAt(0) == 'R')
                        {
                            o = null;
                            final long[] consumed = new long[1];
                            o = read(c, op.substring(1), consumed);
                            head = "" + consumed[0];
                        }
                        else if (op.charAt(0) == 'N')
                            o = c.getConstructor().newInstance();
                        else if (op.charAt(0) == 's')
                        {
                            final int at = op.indexOf(',');
                            final String n = cap(fields[Integer.parseInt(op.substring(1, at))]);
                            final Object donor = read(c, op.substring(at + 1), new long[1]);
                            call(o, "set" + n, call(donor, "get" + n));
                        }
                        else if (op.charAt(0) == 'x')
                            call(o, "reset" + cap(fields[Integer.parseInt(op.substring(1))]));
                    }
                    catch (Throwable t)
                    {
                        head = "x" + t.getClass().getSimpleName() + " " + String.valueOf(t.getMessage()).replace('\n', ' ').replace('\t', ' ');
                    }
                    res.append('\t').append(head);
                    if (head.charAt(0) != 'x')
                        res.append(';').append(seen(o, fields));
                    else if (o == null)
                        break;
                }
                out.println(res);
            }
        }
    }
}
