import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import zserio.runtime.FloatUtil;

/** All 16-bit patterns and all 32-bit floats: args  file with the values (as float bits) of patterns 0..7c00, output. */
public final class Floats
{
    static final int INF16 = 0x7c00, INF32 = 0x7f800000;
    static double[] table = new double[INF16 + 1];

    static String range(int lo, int hi, boolean neg)
    {
        int i = 0, a = 0, b = INF16;
        // last pattern with table <= value of lo
        double v0 = Float.intBitsToFloat(lo);
        while (a < b)
        {
            int m = (a + b + 1) / 2;
            if (table[m] <= v0)
                a = m;
            else
                b = m - 1;
        }
        i = a;
        for (int bits = lo; bits < hi; ++bits)
        {
            double v = Float.intBitsToFloat(bits);
            while (i < INF16 && table[i + 1] <= v)
                ++i;
            int r = FloatUtil.convertFloatToShort(Float.intBitsToFloat(neg ? bits | 0x80000000 : bits)) & 0xffff;
            String e = Model.judge(i, v, r, neg, table);
            if (e != null)
                return String.format("float %08x (%s): pattern %04x, %s", neg ? bits | 0x80000000 : bits, neg ? -v : v, r, e);
        }
        return null;
    }

    static final class Model
    {
        static String judge(int i, double v, int r, boolean neg, double[] t)
        {
            int m = r & 0x7fff;
            if ((r >> 15 != 0) != neg)
                return "sign lost";
            if (v == t[i])
                return m == i ? null : "not exact";
            if (i == INF16)
                return m == INF16 ? null : "not infinity";
            if (m != i && m != i + 1)
                return String.format("not one of the neighbours %04x, %04x", i, i + 1);
            if (i < 0x400)
                return null;
            double up = i + 1 == INF16 ? 65536.0 : t[i + 1], d = (v - t[i]) - (up - v);
            if (v >= 65536.0)
                return m == INF16 ? null : "not infinity";
            return d < 0 && m != i || d > 0 && m != i + 1 ? "not the nearest" : null;
        }
    }

    public static void main(String[] a) throws Exception
    {
        List<String> l = Files.readAllLines(Paths.get(a[0]), StandardCharsets.US_ASCII);
        List<String> out = Collections.synchronizedList(new ArrayList<>());
        for (int i = 0; i <= INF16; ++i)
        {
            int want = (int)Long.parseLong(l.get(i), 16);
            table[i] = Float.intBitsToFloat(want);
            for (int s = 0; s < 2; ++s)
            {
                int got = Float.floatToRawIntBits(FloatUtil.convertShortToFloat((short)(i | s << 15)));
                if (got != (want | s << 31))
                    out.add(String.format("pattern %04x: float %08x, model %08x", i | s << 15, got, want | s << 31));
            }
        }
        for (int i = INF16 + 1; i < 0x8000; ++i)
            for (int s = 0; s < 2; ++s)
            {
                float f = FloatUtil.convertShortToFloat((short)(i | s << 15));
                int back = FloatUtil.convertFloatToShort(f) & 0x7fff;
                if (f == f || back <= INF16)
                    out.add(String.format("NaN pattern %04x: %s, back %04x", i, f, back));
            }
        ExecutorService ex = Executors.newFixedThreadPool(8);
        List<Future<String>> fs = new ArrayList<>();
        final int step = INF32 / 64;
        for (int k = 0; k <= 64; ++k)
        {
            final int lo = k * step, hi = Math.min(lo + step, INF32 + 1);
            fs.add(ex.submit(() -> range(lo, hi, false)));
            fs.add(ex.submit(() -> range(lo, hi, true)));
        }
        // NaNs stay NaNs
        for (int bits = INF32 + 1; bits > 0; bits += 0x3fb)
        {
            if ((FloatUtil.convertFloatToShort(Float.intBitsToFloat(bits)) & 0x7fff) <= INF16)
                out.add(String.format("NaN %08x becomes pattern %04x", bits, FloatUtil.convertFloatToShort(Float.intBitsToFloat(bits))));
        }
        for (Future<String> f : fs)
            if (f.get() != null)
                out.add(f.get());
        ex.shutdown();
        Files.write(Paths.get(a[1]), out, StandardCharsets.US_ASCII);
    }
}
