import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.ByteArrayOutputStream;
import java.io.FileReader;
import java.io.IOException;
import java.io.InputStreamReader;
import java.io.OutputStreamWriter;
import java.io.PrintStream;
import java.io.PrintWriter;
import java.lang.reflect.*;
import java.nio.file.*;
import java.util.*;
import zserio.runtime.io.*;
import zserio.runtime.pubsub.*;
import zserio.runtime.service.*;

/** Histories of calls, publications and subscriptions; see mc/svc.py. */
public abstract class Svc
{
    abstract ServiceInterface service(String n);
    abstract String names();
    abstract String[] pubsubs();

    List<String> events = new ArrayList<>();
    String mode = "";
    byte[] resp;

    static byte[] unhex(String s)
    {
        final byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; ++i)
            b[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }

    static String hex(byte[] b)
    {
        final StringBuilder s = new StringBuilder();
        for (byte x : b)
            s.append(String.format("%02x", x & 0xff));
        return s.toString();
    }

    static byte[] out(Object o)
    {
        if (o instanceof byte[])
            return (byte[])o;
        try
        {
            final ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            ((Writer)o).write(w);
            return w.toByteArray();
        }
        catch (IOException e)
        {
            throw new IllegalStateException(e);
        }
    }

    static Object make(Class<?> c, byte[] d)
    {
        if (c == byte[].class)
            return d;
        try
        {
            return c.getConstructor(BitStreamReader.class).newInstance(new ByteArrayBitStreamReader(d));
        }
        catch (ReflectiveOperationException e)
        {
            throw new IllegalStateException("driver", e);
        }
    }

    static String ctx(Object c)
    {
        return c == null ? "-" : c.toString();
    }

    Object implement(String what, Object request, Object context, Class<?> c)
    {
        events.add("I:" + what + ":" + hex(out(request)) + ":" + ctx(context));
        if (mode.equals("f"))
            throw new IllegalArgumentException("failed");
        return make(c, resp);
    }

    byte[] direct(String svc, String name, byte[] data, Object context)
    {
        final ServiceData<? extends Writer> r = service(svc).callMethod(name, data, context);
        final byte[] a = r.getByteArray();
        if (!Arrays.equals(a, r.getByteArray()))
            throw new IllegalStateException("data changed");
        events.add("A:" + hex(a) + ":" + (r.getZserioObject() == null ? "0" : "1"));
        return a;
    }

    class Broker implements PubsubInterface
    {
        final TreeMap<Integer, Map.Entry<String, Callback>> subs = new TreeMap<>();
        int next = 1;

        @Override
        public void publish(String topic, byte[] data, Object context)
        {
            events.add("P:" + topic + ":" + hex(data) + ":" + ctx(context));
            deliver(topic, data);
        }

        @Override
        public int subscribe(String topic, Callback callback, Object context)
        {
            events.add("S:" + topic + ":" + ctx(context) + "=" + next);
            subs.put(next, new AbstractMap.SimpleEntry<>(topic, callback));
            return next++;
        }

        @Override
        public void unsubscribe(int id)
        {
            events.add("U:" + id);
            if (subs.remove(id) == null)
                throw new PubsubException("no subscription");
        }

        void deliver(String topic, byte[] data)
        {
            for (Map.Entry<Integer, Map.Entry<String, Callback>> e : subs.entrySet())
                if (e.getValue().getKey().equals(topic))
                    try
                    {
                        e.getValue().getValue().invoke(topic, data);
                    }
                    catch (RuntimeException x)
                    {
                        events.add("E:" + e.getKey());
                    }
        }
    }

    static Method method(Class<?> c, String n, int args)
    {
        for (Method m : c.getMethods())
            if (m.getName().equals(n) && m.getParameterCount() == args)
                return m;
        throw new IllegalStateException("no method " + n);
    }

    static Object call(Object o, String n, Object... args) throws Throwable
    {
        try
        {
            return method(o.getClass(), n, args.length).invoke(o, args);
        }
        catch (InvocationTargetException e)
        {
            throw e.getCause();
        }
    }

    static Object[] args(Object a, String c)
    {
        return c.equals("-") ? new Object[] {a} : new Object[] {a, c};
    }

    static String cap(String s)
    {
        return Character.toUpperCase(s.charAt(0)) + s.substring(1);
    }

    String run(String[] op, Broker b, Map<String, Object> ps) throws Throwable
    {
        if (op[0].equals("n"))
            return names();
        if (op[0].equals("m"))
        {
            resp = unhex(op[4]);
            mode = op[6];
            final ServiceClientInterface transport = new ServiceClientInterface()
            {
                @Override
                public byte[] callMethod(String name, ServiceData<? extends Writer> request, Object context)
                {
                    events.add("B:" + name + ":" + hex(request.getByteArray()) + ":" + (request.getZserioObject() == null ? "0" : "1") + ":" + ctx(context));
                    if (mode.equals("n"))
                        throw new ServiceException("no transport");
                    if (mode.startsWith("b"))
                        return unhex(mode.substring(1));
                    return direct(op[1], name, request.getByteArray(), context);
                }
            };
            final Object c = Class.forName("fsvc." + op[1] + "$" + op[1] + "Client").getConstructor(ServiceClientInterface.class).newInstance(transport);
            final Class<?> t = method(c.getClass(), op[2] + "Method", 1).getParameterTypes()[0];
            return "=" + hex(out(call(c, op[2] + "Method", args(make(t, unhex(op[3])), op[5]))));
        }
        if (op[0].equals("d"))
        {
            resp = unhex(op[4]);
            mode = op[6];
            return "=" + hex(direct(op[1], op[2], unhex(op[3]), op[5].equals("-") ? null : op[5]));
        }
        if (op[0].equals("p"))
        {
            final Object p = ps.get(op[1]);
            final String n = "publish" + cap(op[2]);
            call(p, n, args(make(method(p.getClass(), n, 1).getParameterTypes()[0], unhex(op[3])), op[4]));
            return "=";
        }
        if (op[0].equals("s"))
        {
            final int id = b.next;
            final PubsubCallback<Object> cb = new PubsubCallback<Object>()
            {
                @Override
                public void invoke(String topic, Object message)
                {
                    events.add("C:" + id + ":" + topic + ":" + hex(out(message)));
                }
            };
            return "=" + call(ps.get(op[1]), "subscribe" + cap(op[2]), args(cb, op[3]));
        }
        if (op[0].equals("u"))
        {
            call(ps.get(op[1]), "unsubscribe", Integer.parseInt(op[2]));
            return "=";
        }
        b.deliver(op[1], unhex(op[2]));
        return "=";
    }

    void runAll(String in, String outName) throws Throwable
    {
        try (PrintWriter o = new PrintWriter(outName))
        {
            for (String line : Files.readAllLines(Paths.get(in)))
            {
                final String[] f = line.split("\t", -1);
                final Broker b = new Broker();
                final Map<String, Object> ps = new HashMap<>();
                for (String n : pubsubs())
                    ps.put(n, Class.forName("fsvc." + n).getConstructor(PubsubInterface.class).newInstance(b));
                final StringBuilder s = new StringBuilder(f[0]);
                for (int i = 1; i < f.length; ++i)
                {
                    events.clear();
                    String r;
                    try
                    {
                        r = run(f[i].split("\\|", -1), b, ps);
                    }
                    catch (IllegalStateException t)
                    {
                        throw t;
                    }
                    catch (Exception t)
                    {
                        r = "x";
                    }
                    events.add(r);
                    s.append('\t').append(String.join(";", events));
                }
                o.println(s);
            }
        }
    }
}
