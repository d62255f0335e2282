import java.io.IOException;
import java.lang.reflect.Constructor;
import java.lang.reflect.InvocationTargetException;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import zserio.runtime.*;
import zserio.runtime.io.*;

/** Replays model traces on generated Java code: lines  id class mode start end hex json  ->  id and the observations. */
public final class Replay
{
    static byte[] unhex(String s)
    {
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; ++i)
            b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    static String hex(byte[] b)
    {
        StringBuilder s = new StringBuilder(b.length * 2);
        for (byte x : b)
            s.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16));
        return s.toString();
    }

    static String b64(String s)
    {
        return Base64.getEncoder().encodeToString(s.getBytes(StandardCharsets.UTF_8));
    }

    static Throwable cause(Throwable t)
    {
        while ((t instanceof InvocationTargetException || t instanceof ExecutionException) && t.getCause() != null)
            t = t.getCause();
        return t;
    }

    static Object read(Class<?> c, byte[] data, int start, int end, long[] pos) throws Exception
    {
        ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(data, (long)end);
        r.setBitPosition(start);
        Constructor<?> k = c.getConstructor(BitStreamReader.class);
        Object o = k.newInstance(r);
        pos[0] = r.getBitPosition() - start;
        return o;
    }

    static String write(Object o, int start) throws Exception
    {
        ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
        for (int i = 0; i < start; ++i)
            w.writeBits(1, 1);
        ((Writer)o).write(w);
        return w.getBitPosition() + ":" + hex(w.toByteArray());
    }

    static String task(String line, ClassLoader cl)
    {
        String[] f = line.split("\t", -1);
        StringBuilder out = new StringBuilder(f[0]);
        String stage = "load";
        try
        {
            Class<?> c = Class.forName(f[1], true, cl);
            int start = Integer.parseInt(f[3]), end = Integer.parseInt(f[4]);
            byte[] data = unhex(f[5]);
            long[] pos = new long[1];
            if (f[2].equals("W"))
            {
                stage = "read";
                Object o = read(c, data, start, end, pos);
                out.append("\tOK\t").append(pos[0]);
                stage = "bitSizeOf";
                out.append('\t').append(((SizeOf)o).bitSizeOf(start));
                stage = "initializeOffsets";
                out.append('\t').append(((Writer)o).initializeOffsets(start));
                stage = "write";
                out.append('\t').append(write(o, start));
                if (f[6].equals("-"))
                    return out.append("\t-\t-\t-").toString();
                stage = "toJson";
                out.append('\t').append(b64(DebugStringUtil.toJsonString(o)));
                if (f[6].equals("+"))
                    return out.append("\t-\t-").toString();
                stage = "fromJson";
                Object p = DebugStringUtil.fromJsonString(c, new String(Base64.getDecoder().decode(f[6]), StandardCharsets.UTF_8));
                stage = "initializeOffsets2";
                ((Writer)p).initializeOffsets(start);
                stage = "write2";
                out.append('\t').append(write(p, start));
                stage = "equals";
                Object q = read(c, data, start, end, pos);
                boolean eq = p.equals(q) && q.equals(p) && p.equals(p) && !p.equals(null);
                out.append('\t').append(eq).append(p.hashCode() == q.hashCode());
                stage = "SerializeUtil";
                if (start == 0)
                {
                    BitBuffer bb = SerializeUtil.serialize((Writer)p);
                    Object u = SerializeUtil.deserialize(c, bb);
                    out.append(u.equals(q)).append(bb.getBitSize() == end);
                }
            }
            else if (f[2].equals("D"))
            {
                stage = "read";
                Object o = read(c, data, start, end, pos);
                out.append("\tOK\t").append(pos[0]);
                stage = "write";
                String w;
                try
                {
                    w = write(o, start);
                }
                catch (Throwable t)
                {
                    w = "EXC " + cause(t).toString().replace('\t', ' ').replace('\n', ' ');
                }
                out.append('\t').append(w);
                stage = "toJson";
                out.append('\t').append(b64(DebugStringUtil.toJsonString(o)));
            }
            else if (f[2].equals("J"))
            {
                // value given by JSON only: must be refused when written
                stage = "fromJson";
                Object p = DebugStringUtil.fromJsonString(c, new String(Base64.getDecoder().decode(f[6]), StandardCharsets.UTF_8));
                stage = "write";
                out.append("\tOK\t").append(write(p, start));
            }
            else if (f[2].equals("E"))
            {
                List<Object> l = new ArrayList<>();
                StringBuilder hashes = new StringBuilder(), eq = new StringBuilder(), flags = new StringBuilder();
                for (String x : new String(Base64.getDecoder().decode(f[6]), StandardCharsets.US_ASCII).split("\n"))
                {
                    String[] y = x.split(" ");
                    stage = y[0];
                    Object o;
                    if (y[0].equals("R"))
                        o = read(c, y[2].equals("-") ? new byte[0] : unhex(y[2]), 0, Integer.parseInt(y[1]), pos);
                    else
                        o = DebugStringUtil.fromJsonString(c, new String(Base64.getDecoder().decode(y[2]), StandardCharsets.UTF_8));
                    stage = "initializeOffsets";
                    ((Writer)o).initializeOffsets(0);
                    int h = o.hashCode();
                    stage = "bitSizeOf";
                    ((SizeOf)o).bitSizeOf(0);
                    flags.append(h == o.hashCode() && !o.equals(null) && !o.equals("x") && o.equals(o) ? '1' : '0');
                    hashes.append(l.isEmpty() ? "" : ",").append(h & 0xFFFFFFFFL);
                    l.add(o);
                }
                stage = "equals";
                for (Object p : l)
                    for (Object q : l)
                        eq.append(p.equals(q) ? '1' : '0');
                out.append("\tOK\t").append(hashes).append('\t').append(eq).append("\t\t").append(flags);
            }
            return out.toString();
        }
        catch (Throwable t)
        {
            t = cause(t);
            return f[0] + "\tEXC\t" + stage + "\t" + t.getClass().getName() + "\t" + b64(String.valueOf(t.getMessage()));
        }
    }

    public static void main(String[] a) throws Exception
    {
        List<String> lines = Files.readAllLines(Paths.get(a[0]), StandardCharsets.US_ASCII);
        final String[] res = new String[lines.size()];
        final ClassLoader cl = Replay.class.getClassLoader();
        ExecutorService ex = Executors.newFixedThreadPool(Integer.getInteger("threads", 8));
        List<Future<?>> fs = new ArrayList<>();
        final int step = 64;
        for (int i = 0; i < lines.size(); i += step)
        {
            final int from = i, to = Math.min(lines.size(), i + step);
            fs.add(ex.submit(() -> {
                for (int k = from; k < to; ++k)
                    res[k] = task(lines.get(k), cl);
            }));
        }
        for (Future<?> f : fs)
            f.get();
        ex.shutdown();
        Files.write(Paths.get(a[1]), Arrays.asList(res), StandardCharsets.US_ASCII);
    }
}
