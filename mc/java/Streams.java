import java.io.IOException;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import zserio.runtime.*;
import zserio.runtime.io.*;

/** Replays bit stream model traces: each line is one case, the answer line holds everything observed. */
public final class Streams
{
    static BitBuffer ext(String v, boolean garbage)
    {
        int c = v.indexOf('/');
        long n = Long.parseLong(v.substring(0, c));
        byte[] b = Replay.unhex(v.substring(c + 1));
        if (garbage && n % 8 != 0)
            b[b.length - 1] |= (byte)((1 << (8 - n % 8)) - 1);
        return new BitBuffer(b, n);
    }

    static void write(ByteArrayBitStreamWriter w, String[] o) throws IOException
    {
        int n = Integer.parseInt(o[1]);
        String v = o[2];
        switch (o[0])
        {
        case "u": w.writeBits(Long.parseLong(v), n); break;
        case "s": w.writeSignedBits(Long.parseLong(v), n); break;
        case "U": case "S": w.writeBigInteger(new BigInteger(v), n); break;
        case "u8": w.writeUnsignedByte(Short.parseShort(v)); break;
        case "u16": w.writeUnsignedShort(Integer.parseInt(v)); break;
        case "u32": w.writeUnsignedInt(Long.parseLong(v)); break;
        case "s8": w.writeByte(Byte.parseByte(v)); break;
        case "s16": w.writeShort(Short.parseShort(v)); break;
        case "s32": w.writeInt(Integer.parseInt(v)); break;
        case "s64": w.writeLong(Long.parseLong(v)); break;
        case "varint16": w.writeVarInt16(Short.parseShort(v)); break;
        case "varuint16": w.writeVarUInt16(Short.parseShort(v)); break;
        case "varint32": w.writeVarInt32(Integer.parseInt(v)); break;
        case "varuint32": w.writeVarUInt32(Integer.parseInt(v)); break;
        case "varint64": w.writeVarInt64(Long.parseLong(v)); break;
        case "varuint64": w.writeVarUInt64(Long.parseLong(v)); break;
        case "varint": w.writeVarInt(Long.parseLong(v)); break;
        case "varuint": w.writeVarUInt(new BigInteger(v)); break;
        case "varsize": w.writeVarSize(Integer.parseInt(v)); break;
        case "f16": w.writeFloat16(Float.intBitsToFloat(Integer.parseUnsignedInt(v))); break;
        case "f32": w.writeFloat32(Float.intBitsToFloat(Integer.parseUnsignedInt(v))); break;
        case "f64": w.writeFloat64(Double.longBitsToDouble(Long.parseUnsignedLong(v))); break;
        case "b": w.writeBool(v.equals("1")); break;
        case "al": w.alignTo(n); break;
        case "str": w.writeString(new String(Replay.unhex(v), StandardCharsets.UTF_8)); break;
        case "by": w.writeBytes(Replay.unhex(v)); break;
        case "ext": w.writeBitBuffer(ext(v, true)); break;
        default: throw new IllegalStateException(o[0]);
        }
    }

    static int size(String k, String v) throws Exception
    {
        switch (k)
        {
        case "varint16": return BitSizeOfCalculator.getBitSizeOfVarInt16(Short.parseShort(v));
        case "varuint16": return BitSizeOfCalculator.getBitSizeOfVarUInt16(Short.parseShort(v));
        case "varint32": return BitSizeOfCalculator.getBitSizeOfVarInt32(Integer.parseInt(v));
        case "varuint32": return BitSizeOfCalculator.getBitSizeOfVarUInt32(Integer.parseInt(v));
        case "varint64": return BitSizeOfCalculator.getBitSizeOfVarInt64(Long.parseLong(v));
        case "varuint64": return BitSizeOfCalculator.getBitSizeOfVarUInt64(Long.parseLong(v));
        case "varint": return BitSizeOfCalculator.getBitSizeOfVarInt(Long.parseLong(v));
        case "varuint": return BitSizeOfCalculator.getBitSizeOfVarUInt(new BigInteger(v));
        case "varsize": return BitSizeOfCalculator.getBitSizeOfVarSize(Integer.parseInt(v));
        case "str": return (int)BitSizeOfCalculator.getBitSizeOfString(new String(Replay.unhex(v), StandardCharsets.UTF_8));
        case "by": return (int)BitSizeOfCalculator.getBitSizeOfBytes(Replay.unhex(v));
        case "ext": return (int)BitSizeOfCalculator.getBitSizeOfBitBuffer(ext(v, false));
        default: return -1;
        }
    }

    static String read(ByteArrayBitStreamReader r, String[] o) throws IOException
    {
        int n = Integer.parseInt(o[1]);
        switch (o[0])
        {
        case "u": return "" + r.readBits(n);
        case "s": return "" + r.readSignedBits(n);
        case "U": return "" + r.readBigInteger(n);
        case "S": return "" + r.readSignedBigInteger(n);
        case "u8": return "" + r.readUnsignedByte();
        case "u16": return "" + r.readUnsignedShort();
        case "u32": return "" + r.readUnsignedInt();
        case "s8": return "" + r.readByte();
        case "s16": return "" + r.readShort();
        case "s32": return "" + r.readInt();
        case "s64": return "" + r.readLong();
        case "varint16": return "" + r.readVarInt16();
        case "varuint16": return "" + r.readVarUInt16();
        case "varint32": return "" + r.readVarInt32();
        case "varuint32": return "" + r.readVarUInt32();
        case "varint64": return "" + r.readVarInt64();
        case "varuint64": return "" + r.readVarUInt64();
        case "varint": return "" + r.readVarInt();
        case "varuint": return "" + r.readVarUInt();
        case "varsize": return "" + r.readVarSize();
        case "f16": return Integer.toUnsignedString(Float.floatToIntBits(r.readFloat16()));
        case "f32": return Integer.toUnsignedString(Float.floatToIntBits(r.readFloat32()));
        case "f64": return Long.toUnsignedString(Double.doubleToLongBits(r.readFloat64()));
        case "b": return r.readBool() ? "1" : "0";
        case "al": r.alignTo(n); return "";
        case "str": return Replay.hex(r.readString().getBytes(StandardCharsets.UTF_8));
        case "by": return Replay.hex(r.readBytes());
        case "ext":
            BitBuffer b = r.readBitBuffer();
            return b.getBitSize() + "/" + Replay.hex(b.getBuffer());
        default: throw new IllegalStateException(o[0]);
        }
    }

    static void prefix(ByteArrayBitStreamWriter w, int n, BigInteger v) throws IOException
    {
        while (n > 0)
        {
            int k = Math.min(n, 32);
            n -= k;
            w.writeBits(v.shiftRight(n).longValue() & 0xffffffffL, k);
        }
    }

    static String[][] ops(String s)
    {
        String[] p = s.split(" ");
        String[][] r = new String[p.length][];
        for (int i = 0; i < p.length; ++i)
            r[i] = p[i].split(":", -1);
        return r;
    }

    static String replay(String[] f) throws Exception
    {
        int pre = Integer.parseInt(f[1]);
        String[][] o = ops(f[3]);
        // two capacities, so that the buffer grows at different places
        StringBuilder out = new StringBuilder();
        ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter(), w1 = new ByteArrayBitStreamWriter(1);
        prefix(w, pre, new BigInteger(f[2]));
        prefix(w1, pre, new BigInteger(f[2]));
        for (String[] x : o)
        {
            write(w, x);
            write(w1, x);
            out.append(w.getBitPosition()).append(' ').append(size(x[0], x[2])).append(' ');
        }
        long end = w.getBitPosition();
        w.writeBits(1, 1);
        w1.writeBits(1, 1);
        byte[] data = w.toByteArray();
        out.append('\t').append(Replay.hex(data)).append('\t').append(Arrays.equals(data, w1.toByteArray())).append('\t');
        ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(data, end + 1);
        r.setBitPosition(pre);
        long[] pos = new long[o.length + 1];
        String[] v = new String[o.length];
        pos[0] = pre;
        for (int i = 0; i < o.length; ++i)
        {
            v[i] = read(r, o[i]);
            pos[i + 1] = r.getBitPosition();
            out.append(v[i]).append(' ').append(pos[i + 1]).append(' ');
        }
        out.append(r.readBits(1));
        for (int i = o.length - 1; i >= 0; --i)
        {
            r.setBitPosition(pos[i]);
            if (!read(r, o[i]).equals(v[i]) || r.getBitPosition() != pos[i + 1])
                out.append(" REREAD ").append(i);
        }
        r = new ByteArrayBitStreamReader(new BitBuffer(data, end + 1));
        r.setBitPosition(pre);
        for (int i = 0; i < o.length; ++i)
            if (!read(r, o[i]).equals(v[i]))
                out.append(" BUFFER ").append(i);
        return out.toString();
    }

    static String run(String line) throws Exception
    {
        String[] f = line.split("\t", -1);
        StringBuilder out = new StringBuilder();
        switch (f[0])
        {
        case "R": return replay(f);
        case "E":
        {
            // op, prefix, data; all cuts
            String[] o = f[1].split(":", -1);
            int pre = Integer.parseInt(f[2]);
            byte[] data = Replay.unhex(f[3]);
            for (String c : f[4].split(" "))
            {
                int cut = Integer.parseInt(c);
                ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(Arrays.copyOf(data, (cut + 7) / 8), (long)cut);
                try
                {
                    r.setBitPosition(pre);
                    String v = read(r, o);
                    out.append(cut).append('=').append(v).append('@').append(r.getBitPosition()).append(' ');
                }
                catch (IOException | IndexOutOfBoundsException e)
                {
                }
            }
            return out.toString();
        }
        case "B":
        {
            int pre = Integer.parseInt(f[1]);
            ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            prefix(w, pre, new BigInteger(f[2]));
            try
            {
                write(w, f[3].split(":", -1));
                out.append("accepted ");
            }
            catch (NumberFormatException e)
            {
                return "unrepresentable";
            }
            catch (IOException | RuntimeException e)
            {
            }
            out.append(w.getBitPosition()).append(' ');
            w.writeBits(0x15, 5);
            return out.append(Replay.hex(w.toByteArray())).toString();
        }
        case "G":
        {
            // data, total, position: all widths, both signs, BigInteger too
            byte[] data = Replay.unhex(f[1]);
            long total = Long.parseLong(f[2]), pos = Long.parseLong(f[3]);
            for (int n = 1; n <= 64; ++n)
                for (int m = 0; m < 4; ++m)
                {
                    if (m == 0 && n == 64)
                    {
                        out.append("- ");
                        continue;
                    }
                    ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(data, total);
                    try
                    {
                        r.setBitPosition(pos);
                        String v = read(r, new String[] {m == 0 ? "u" : m == 1 ? "s" : m == 2 ? "U" : "S", "" + n, ""});
                        out.append(v).append('@').append(r.getBitPosition()).append(' ');
                    }
                    catch (IOException | IndexOutOfBoundsException e)
                    {
                        out.append("X ");
                    }
                }
            return out.toString();
        }
        case "V":
        {
            // kind, lo, hi: sizes, bytes, read back
            BigInteger hi = new BigInteger(f[3]);
            ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            int n = 0;
            for (BigInteger v = new BigInteger(f[2]); v.compareTo(hi) < 0; v = v.add(BigInteger.ONE), ++n)
            {
                long p = w.getBitPosition();
                String s = v.toString();
                write(w, new String[] {f[1], "0", s});
                if (w.getBitPosition() - p != size(f[1], s))
                    return "size of " + s;
            }
            byte[] data = w.toByteArray();
            ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(data);
            for (BigInteger v = new BigInteger(f[2]); v.compareTo(hi) < 0; v = v.add(BigInteger.ONE))
            {
                String g = read(r, new String[] {f[1], "0", ""});
                if (!g.equals(v.toString()))
                    return v + " read as " + g;
            }
            return Replay.hex(data);
        }
        case "Z":
            // sizes of values out of the type's domain
            try
            {
                return "" + size(f[1], f[2]);
            }
            catch (NumberFormatException e)
            {
                return "unrepresentable";
            }
            catch (ZserioError e)
            {
                return "refused";
            }
        default: throw new IllegalStateException(line);
        }
    }

    public static void main(String[] a) throws Exception
    {
        List<String> lines = Files.readAllLines(Paths.get(a[0]), StandardCharsets.US_ASCII);
        List<String> res = new ArrayList<>();
        for (String l : lines)
        {
            String s;
            try
            {
                s = run(l);
            }
            catch (Throwable t)
            {
                s = "EXC " + t.toString().replace('\n', ' ').replace('\t', ' ');
            }
            res.add(s);
        }
        Files.write(Paths.get(a[1]), res, StandardCharsets.US_ASCII);
    }
}
