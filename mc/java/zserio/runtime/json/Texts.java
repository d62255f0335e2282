package zserio.runtime.json;

import java.io.*;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** Parses JSON texts in several chunkings: lines  hex of the UTF-8 text  ->  events and outcome, "=" for every agreeing chunking. */
public final class Texts
{
    static final class Drip extends Reader
    {
        final String s;
        final int k;
        int pos = 0;
        Drip(String s, int k) { this.s = s; this.k = k; }
        @Override public int read(char[] b, int off, int len)
        {
            if (pos >= s.length())
                return -1;
            int n = Math.min(Math.min(len, k), s.length() - pos);
            s.getChars(pos, pos + n, b, off);
            pos += n;
            return n;
        }
        @Override public void close() {}
    }

    static String hex(byte[] b)
    {
        StringBuilder s = new StringBuilder(b.length * 2);
        for (byte x : b)
            s.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16));
        return s.toString();
    }

    static String parse(String text, int k)
    {
        final StringBuilder out = new StringBuilder();
        JsonParser p = new JsonParser(k == 0 ? new StringReader(text) : new Drip(text, k), new JsonParser.Observer() {
            @Override public void beginObject() { out.append("{ "); }
            @Override public void endObject() { out.append("} "); }
            @Override public void beginArray() { out.append("[ "); }
            @Override public void endArray() { out.append("] "); }
            @Override public void visitKey(String key) { out.append('k').append(hex(key.getBytes(StandardCharsets.UTF_8))).append(' '); }
            @Override public void visitValue(Object v)
            {
                if (v == null)
                    out.append('n');
                else if (v instanceof Boolean)
                    out.append((Boolean)v ? 't' : 'f');
                else if (v instanceof BigInteger)
                    out.append('i').append(v);
                else if (v instanceof Double)
                    out.append('d').append(Long.toHexString(Double.doubleToLongBits((Double)v)));
                else if (v instanceof String)
                    out.append('s').append(hex(((String)v).getBytes(StandardCharsets.UTF_8)));
                else
                    out.append('?').append(v.getClass().getName());
                out.append(' ');
            }
        });
        try
        {
            out.append(p.parse() ? "T" : "F");
        }
        catch (JsonParserError e)
        {
            String[] m = e.getMessage().split(":", 4);
            out.append("E ").append(m.length == 4 ? m[1] + " " + m[2] : e.getMessage());
        }
        catch (Throwable e)
        {
            out.append("X ").append(e);
        }
        return out.toString();
    }

    public static void main(String[] a) throws Exception
    {
        List<String> lines = Files.readAllLines(Paths.get(a[0]), StandardCharsets.US_ASCII);
        try (PrintWriter w = new PrintWriter(Files.newBufferedWriter(Paths.get(a[1]), StandardCharsets.US_ASCII)))
        {
            String[] chunks = lines.get(0).split(" ");
            for (String l : lines.subList(1, lines.size()))
            {
                if (l.startsWith("N"))
                {
                    // encoded number: bits of a double  ->  text, and what the decoder makes of it
                    double d = Double.longBitsToDouble(Long.parseUnsignedLong(l.substring(1), 16));
                    StringWriter s = new StringWriter();
                    PrintWriter p = new PrintWriter(s);
                    JsonEncoder.encodeFloatingPoint(p, d);
                    p.flush();
                    w.println(s + "\t" + parse("[" + s + "]", 0));
                    continue;
                }
                byte[] b = new byte[l.length() / 2];
                for (int i = 0; i < b.length; ++i)
                    b[i] = (byte)Integer.parseInt(l.substring(2 * i, 2 * i + 2), 16);
                String text = new String(b, StandardCharsets.UTF_8), first = null;
                for (String c : chunks)
                {
                    String r = parse(text, Integer.parseInt(c));
                    if (first == null)
                        w.print(first = r);
                    else
                        w.print("\t" + (r.equals(first) ? "=" : r));
                }
                w.println();
            }
        }
    }
}
