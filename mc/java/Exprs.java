import java.io.IOException;
import java.lang.reflect.Constructor;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import zserio.runtime.*;
import zserio.runtime.io.*;

/** Evaluates all functions f0, f1, ... of an object: lines  class par bits hex  ->  values. */
public final class Exprs
{
    public static void main(String[] a) throws Exception
    {
        List<String> res = new ArrayList<>();
        for (String line : Files.readAllLines(Paths.get(a[0]), StandardCharsets.US_ASCII))
        {
            String[] f = line.split("\t", -1);
            Class<?> c = Class.forName(f[0]);
            ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(Replay.unhex(f[3]), Long.parseLong(f[2]));
            Object o = c.getConstructor(BitStreamReader.class, int.class).newInstance(r, Integer.parseInt(f[1]));
            StringBuilder out = new StringBuilder();
            for (int i = 0;; ++i)
            {
                Method m;
                try
                {
                    m = c.getMethod("funcF" + i);
                }
                catch (NoSuchMethodException e)
                {
                    break;
                }
                if (i > 0)
                    out.append('\t');
                try
                {
                    Object v = m.invoke(o);
                    if (v instanceof ZserioEnum)
                        v = ((ZserioEnum)v).getGenericValue();
                    else if (v instanceof ZserioBitmask)
                        v = ((ZserioBitmask)v).getGenericValue();
                    out.append(v);
                }
                catch (InvocationTargetException e)
                {
                    out.append(e.getCause().getClass().getName());
                }
            }
            res.add(out.toString());
        }
        Files.write(Paths.get(a[1]), res, StandardCharsets.US_ASCII);
    }
}
