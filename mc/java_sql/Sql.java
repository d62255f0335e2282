import java.io.File;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.sql.*;
import java.util.*;
import zserio.runtime.io.*;

/** Runs histories of SQL operations on generated databases (see mc/sql.py). Arguments: input, output. */
public final class Sql
{
    static String cap(String s)
    {
        return Character.toUpperCase(s.charAt(0)) + s.substring(1);
    }

    static byte[] unhex(String s)
    {
        final byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; ++i)
            b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    static String hex(byte[] b)
    {
        final StringBuilder s = new StringBuilder();
        for (byte x : b)
            s.append(String.format("%02x", x & 0xff));
        return s.toString();
    }

    static Object number(Class<?> t, BigInteger v)
    {
        if (t == boolean.class)
            return v.signum() != 0;
        if (t == byte.class)
            return v.byteValueExact();
        if (t == short.class)
            return v.shortValueExact();
        if (t == int.class)
            return v.intValueExact();
        if (t == long.class)
            return v.longValueExact();
        return v;
    }

    static Object cell(Class<?> t, String c) throws Exception
    {
        final String x = c.substring(1);
        switch (c.charAt(0))
        {
        case 'i':
        {
            final BigInteger v = new BigInteger(x);
            if (t.isEnum())
            {
                for (Method m : t.getMethods())
                    if (m.getName().equals("toEnum") && m.getParameterTypes()[0] != String.class)
                        return m.invoke(null, number(m.getParameterTypes()[0], v));
            }
            if (!t.isPrimitive() && t != BigInteger.class)
            {
                for (Constructor<?> k : t.getConstructors())
                    if (k.getParameterCount() == 1 && (k.getParameterTypes()[0].isPrimitive() || k.getParameterTypes()[0] == BigInteger.class))
                        return k.newInstance(number(k.getParameterTypes()[0], v));
            }
            return number(t, v);
        }
        case 'f':
        {
            final double d = Double.longBitsToDouble(Long.parseUnsignedLong(x, 16));
            if (t == float.class)
                return (float)d;
            return d;
        }
        case 's':
            return new String(unhex(x), StandardCharsets.UTF_8);
        default:
        {
            final String[] p = x.split(":");
            final ByteArrayBitStreamReader in = new ByteArrayBitStreamReader(unhex(p[0]));
            for (Constructor<?> k : t.getConstructors())
            {
                final Class<?>[] pt = k.getParameterTypes();
                if (pt.length == p.length && pt[0] == BitStreamReader.class)
                {
                    final Object[] a = new Object[pt.length];
                    a[0] = in;
                    for (int i = 1; i < a.length; ++i)
                        a[i] = number(pt[i], new BigInteger(p[i]));
                    return k.newInstance(a);
                }
            }
            throw new IllegalStateException("no reading constructor of " + t);
        }
        }
    }

    static String token(Object v) throws Exception
    {
        if (v instanceof Boolean)
            return (Boolean)v ? "i1" : "i0";
        if (v instanceof Float || v instanceof Double)
            return String.format("f%016x", Double.doubleToRawLongBits(((Number)v).doubleValue()));
        if (v instanceof Number)
            return "i" + v;
        if (v instanceof String)
            return "s" + hex(((String)v).getBytes(StandardCharsets.UTF_8));
        if (v instanceof zserio.runtime.ZserioEnum || v instanceof zserio.runtime.ZserioBitmask)
            return "i" + v.getClass().getMethod("getValue").invoke(v);
        return "b" + hex(SerializeUtil.serializeToBytes((zserio.runtime.io.Writer)v));
    }

    final Class<?> dbClass;
    final String file;
    final Map<String, String> relocation = new HashMap<>();
    zserio.runtime.SqlDatabase db;
    int cnt = 3, flag = 1;

    Sql(String cls, String file) throws Exception
    {
        dbClass = Class.forName(cls);
        this.file = file;
    }

    void open() throws Exception
    {
        db = (zserio.runtime.SqlDatabase)(relocation.isEmpty() ? dbClass.getConstructor(String.class).newInstance(file)
            : dbClass.getConstructor(String.class, Map.class).newInstance(file, relocation));
        raw("PRAGMA synchronous=OFF");
    }

    void raw(String s) throws Exception
    {
        try (Statement st = db.connection().createStatement())
        {
            st.execute(s);
        }
    }

    Object provider(Class<?> itf)
    {
        return Proxy.newProxyInstance(itf.getClassLoader(), new Class<?>[] {itf}, (p, m, a) -> {
            if (a == null)
                return provider(m.getReturnType());
            return number(m.getReturnType(), BigInteger.valueOf(m.getName().equals("getFlag") ? flag : cnt));
        });
    }

    /** Calls the overload with these arguments, with a parameter provider where one is wanted. */
    Object call(Object o, String name, Object... args) throws Exception
    {
        for (Method m : o.getClass().getMethods())
        {
            if (!m.getName().equals(name))
                continue;
            final Class<?>[] pt = m.getParameterTypes();
            final boolean prov = pt.length > 0 && pt[0].getSimpleName().equals("ParameterProvider");
            final List<Object> all = new ArrayList<>();
            if (prov)
                all.add(provider(pt[0]));
            all.addAll(Arrays.asList(args));
            boolean fits = all.size() == pt.length;
            for (int i = 0; fits && i < pt.length; ++i)
                fits = all.get(i) == null ? pt[i].isArray() : pt[i].isInstance(all.get(i));
            if (!fits)
                continue;
            try
            {
                return m.invoke(o, all.toArray());
            }
            catch (InvocationTargetException e)
            {
                if (e.getCause() instanceof Exception)
                    throw (Exception)e.getCause();
                throw e;
            }
        }
        throw new IllegalStateException("no method " + name + " of " + o.getClass());
    }

    Object table(String name) throws Exception
    {
        return dbClass.getMethod("get" + cap(name)).invoke(db);
    }

    Class<?> rowClass(Object t) throws Exception
    {
        return Class.forName(t.getClass().getName() + "Row");
    }

    static String[] columns(Class<?> row) throws Exception
    {
        final Field f = Class.forName(row.getName().substring(0, row.getName().length() - 3)).getDeclaredField("columnNames");
        f.setAccessible(true);
        return (String[])f.get(null);
    }

    static Object row(Class<?> rc, String text) throws Exception
    {
        final Object r = rc.getConstructor().newInstance();
        final String[] names = columns(rc), cells = text.split(",");
        for (int i = 0; i < names.length; ++i)
        {
            if (cells[i].equals("n"))
            {
                rc.getMethod("setNull" + cap(names[i])).invoke(r);
                continue;
            }
            for (Method m : rc.getMethods())
                if (m.getName().equals("set" + cap(names[i])) && m.getParameterCount() == 1)
                    m.invoke(r, cell(m.getParameterTypes()[0], cells[i]));
        }
        return r;
    }

    static String[] cols(String s)
    {
        return s.equals("*") ? null : s.split(",");
    }

    String op(String text) throws Exception
    {
        final String[] a = text.split("\\|", -1);
        switch (a[0])
        {
        case "p":
            cnt = Integer.parseInt(a[1]);
            flag = Integer.parseInt(a[2]);
            return "ok";
        case "c":
            if (a.length > 1)
                dbClass.getMethod("createSchema", Set.class).invoke(db, new HashSet<>(Arrays.asList(a[1].split(","))));
            else
                db.createSchema();
            return "ok";
        case "d":
            db.deleteSchema();
            return "ok";
        case "ct":
            call(table(a[1]), "createTable");
            return "ok";
        case "co":
            call(table(a[1]), "createOrdinaryRowIdTable");
            return "ok";
        case "dt":
            call(table(a[1]), "deleteTable");
            return "ok";
        case "q":
            raw(a[1]);
            return "ok";
        case "t":
            db.connection().setAutoCommit(false);
            return "ok";
        case "k":
            db.connection().commit();
            db.connection().setAutoCommit(true);
            return "ok";
        case "b":
            db.connection().rollback();
            db.connection().setAutoCommit(true);
            return "ok";
        case "o":
            db.close();
            open();
            return "ok";
        case "w":
        {
            final Object t = table(a[1]);
            final List<Object> rows = new ArrayList<>();
            if (!a[3].isEmpty())
                for (String r : a[3].split(";"))
                    rows.add(row(rowClass(t), r));
            if (a[2].equals("*"))
                call(t, "write", rows);
            else
                call(t, "write", rows, cols(a[2]));
            return "ok";
        }
        case "u":
        {
            final Object t = table(a[1]);
            if (a[2].equals("*"))
                call(t, "update", row(rowClass(t), a[3]), a[4]);
            else
                call(t, "update", row(rowClass(t), a[3]), cols(a[2]), a[4]);
            return "ok";
        }
        case "r":
        {
            final Object t = table(a[1]);
            final Class<?> rc = rowClass(t);
            final List<?> rows = (List<?>)(a[3].isEmpty() ? a[2].equals("*") ? call(t, "read") : call(t, "read", (Object)cols(a[2]))
                : a[2].equals("*") ? call(t, "read", a[3]) : call(t, "read", cols(a[2]), a[3]));
            final StringBuilder s = new StringBuilder("[");
            for (Object r : rows)
            {
                if (s.length() > 1)
                    s.append(';');
                boolean first = true;
                for (String n : columns(rc))
                {
                    s.append(first ? "" : ",").append((Boolean)rc.getMethod("isNull" + cap(n)).invoke(r) ? "n" : token(rc.getMethod("get" + cap(n)).invoke(r)));
                    first = false;
                }
            }
            return s.append("]").toString();
        }
        case "v":
        {
            final zserio.runtime.validation.ValidationReport rep;
            if (a.length > 1)
                rep = (zserio.runtime.validation.ValidationReport)call(table(a[1]), "validate");
            else
                rep = (zserio.runtime.validation.ValidationReport)call(db, "validate");
            final StringBuilder s = new StringBuilder(rep.getNumberOfValidatedTables() + "," + rep.getNumberOfValidatedRows());
            for (zserio.runtime.validation.ValidationError e : rep.getErrors())
                s.append(';').append(e.getTableName()).append(',').append(e.getFieldName()).append(',').append(e.getRowKeyValues() == null ? "" : String.join("/", e.getRowKeyValues())).append(',').append(e.getType());
            return s.toString();
        }
        default:
            throw new IllegalStateException(text);
        }
    }

    String run(String[] f) throws Exception
    {
        final StringBuilder s = new StringBuilder(f[0]);
        open();
        for (int i = 3; i < f.length; ++i)
        {
            String r;
            try
            {
                r = op(f[i]);
            }
            catch (Throwable e)
            {
                Throwable c = e instanceof InvocationTargetException ? e.getCause() : e;
                final boolean documented = c instanceof SQLException || c instanceof java.io.IOException || c instanceof zserio.runtime.ZserioError;
                r = (documented ? "x" : "X") + c.getClass().getSimpleName() + " " + String.valueOf(c.getMessage()).replaceAll("\\s+", " ");
            }
            s.append('\t').append(r);
        }
        try
        {
            db.close();
        }
        catch (Exception e)
        {
            s.append("\tclose: ").append(e);
        }
        return s.toString();
    }

    public static void main(String[] a) throws Exception
    {
        final List<String> out = new ArrayList<>();
        for (String line : Files.readAllLines(Paths.get(a[0])))
        {
            final String[] f = line.split("\t", -1);      // id, class, file[+table=file,...], operations
            final String[] files = f[2].split("\\+");
            final Sql s = new Sql(f[1], files[0]);
            for (int i = 1; i < files.length; ++i)
                s.relocation.put(files[i].split("=")[0], files[i].split("=")[1]);
            out.add(s.run(f));
        }
        Files.write(Paths.get(a[1]), out);
    }
}
