import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;
import zserio.runtime.*;
import zserio.runtime.typeinfo.*;

/** Tells what type information says (see mc/tinfo.py). */
public final class Infos
{
    static String kind(TypeInfo t)
    {
        switch (t.getSchemaType())
        {
        case STRUCT:
            return "struct";
        case CHOICE:
            return "choice";
        case UNION:
            return "union";
        case ENUM:
            return "enum";
        case BITMASK:
            return "bitmask";
        default:
            return null;
        }
    }

    static String strip(String n)
    {
        return n.replaceAll("_[0-9A-F]{8}$", "");
    }

    static final class Graph
    {
        final Map<String, Integer> num = new HashMap<>();
        final ArrayDeque<TypeInfo> queue = new ArrayDeque<>();

        String ref(TypeInfo t)
        {
            if (kind(t) == null)
                return t.getSchemaName();
            if (!num.containsKey(t.getSchemaName()))
            {
                num.put(t.getSchemaName(), num.size());
                queue.add(t);
            }
            return strip(t.getSchemaName()) + "#" + num.get(t.getSchemaName());
        }

        static int b(boolean x)
        {
            return x ? 1 : 0;
        }

        void items(StringBuilder s, TypeInfo t, List<ItemInfo> items)
        {
            s.append(";U ").append(ref(t.getUnderlyingType())).append(' ');
            if (t.getUnderlyingTypeArguments().isEmpty())
                s.append('-');
            for (Supplier<Object> a : t.getUnderlyingTypeArguments())
                s.append(token(a.get()));
            for (ItemInfo i : items)
                s.append(";I ").append(i.getSchemaName()).append(' ').append(i.getValue()).append(' ').append(b(i.isDeprecated())).append(' ').append(b(i.isRemoved()));
        }

        String one(TypeInfo t)
        {
            final StringBuilder s = new StringBuilder();
            final String k = kind(t);
            s.append("T ").append(k).append(' ').append(strip(t.getSchemaName()));
            if (k.equals("enum") || k.equals("bitmask"))
            {
                items(s, t, k.equals("enum") ? t.getEnumItems() : t.getBitmaskValues());
                return s.toString();
            }
            for (FieldInfo f : t.getFields())
            {
                final String arr = !f.isArray() ? "no" : f.isImplicit() ? f.getArrayLength() == null ? "implicit" : "?" : f.getArrayLength() == null ? "auto" : "fixed";
                final String opt = !f.isOptional() ? "no" : f.getOptionalCondition() == null ? "auto" : "cond";
                s.append(";F ").append(f.getSchemaName()).append(' ').append(ref(f.getTypeInfo())).append(' ').append(arr).append(' ').append(b(f.isPacked())).append(' ').append(b(f.isExtended())).append(' ').append(opt).append(' ');
                s.append(b(f.getAlignment() != null)).append(' ').append(b(f.getOffset() != null)).append(' ').append(b(f.getInitializer() != null)).append(' ').append(b(f.getConstraint() != null)).append(' ').append(f.getTypeArguments().size());
            }
            for (ParameterInfo p : t.getParameters())
                s.append(";P ").append(p.getSchemaName()).append(' ').append(ref(p.getTypeInfo()));
            for (FunctionInfo p : t.getFunctions())
                s.append(";N ").append(p.getSchemaName()).append(' ').append(ref(p.getTypeInfo()));
            if (k.equals("choice"))
                for (CaseInfo c : t.getCases())
                {
                    final List<String> l = new ArrayList<>();
                    for (Supplier<Object> e : c.getCaseExpressions())
                    {
                        final Object v = e.get();
                        l.add(v instanceof ZserioEnum ? "e" + ((Enum<?>)v).name() : v instanceof ZserioBitmask ? "i" + ((ZserioBitmask)v).getGenericValue() : token(v));
                    }
                    s.append(";C ").append(String.join(",", l)).append(' ').append(c.getField() == null ? "-" : c.getField().getSchemaName());
                }
            if (!t.getTemplateName().isEmpty())
            {
                s.append(";G ").append(t.getTemplateName());
                for (TypeInfo a : t.getTemplateArguments())
                    s.append(' ').append(ref(a));
            }
            else if (!t.getTemplateArguments().isEmpty())
                s.append(";?");
            return s.toString();
        }

        String all(TypeInfo t)
        {
            ref(t);
            final List<String> out = new ArrayList<>();
            while (!queue.isEmpty())
                out.add(one(queue.remove()));
            return String.join("|", out);
        }
    }

    static String token(Object v)
    {
        if (v != null && v.getClass().isArray() && !(v instanceof byte[]))
            return "A" + Array.getLength(v);
        final String s = Trees.show(v);
        return s.startsWith("?") ? "C" : s;
    }

    static final Map<Class<?>, TypeInfo> known = new HashMap<>();

    static TypeInfo info(Object o) throws Exception
    {
        TypeInfo t = known.get(o.getClass());
        if (t == null)
            known.put(o.getClass(), t = (TypeInfo)o.getClass().getMethod("typeInfo").invoke(null));
        return t;
    }

    static Object call(Object o, String name) throws Exception
    {
        return o.getClass().getMethod(name).invoke(o);
    }

    static String answer(Object o, String query) throws Exception
    {
        final int slash = query.indexOf('/');
        if (slash > 0)
            for (String step : query.substring(0, slash).split(","))
            {
                final String[] p = step.split(":");
                o = call(o, info(o).getFields().get(Integer.parseInt(p[0])).getGetterName());
                if (Integer.parseInt(p[1]) >= 0)
                    o = Array.get(o, Integer.parseInt(p[1]));
            }
        final TypeInfo t = info(o);
        final String[] r = query.substring(slash + 2).split("\\.");
        final char k = query.charAt(slash + 1);
        if (k == 'N')
            return token(t.getFunctions().get(Integer.parseInt(r[0])).getFunctionResult().apply(o));
        final FieldInfo f = t.getFields().get(Integer.parseInt(r[0]));
        final int i = r.length > 1 ? Integer.parseInt(r[r.length - 1]) : -1;
        switch (k)
        {
        case 'A':
            return token(f.getTypeArguments().get(Integer.parseInt(r[1])).apply(o, i));
        case 'L':
            return token(f.getArrayLength().applyAsInt(o));
        case 'O':
            return token(f.getOptionalCondition().test(o));
        case 'U':
            return token(call(o, f.getIsUsedIndicatorName()));
        case 'S':
            return token(call(o, f.getIsSetIndicatorName()));
        case 'C':
            return token(f.getConstraint().test(o));
        case 'P':
            return token(f.getOffset().apply(o, i));
        case 'G':
            return token(f.getAlignment().getAsInt());
        case 'I':
            return token(f.getInitializer().get());
        default:
            final Object v = call(o, f.getGetterName());
            if (i < 0)
                return v instanceof byte[] && f.isArray() ? "A" + ((byte[])v).length : token(v);
            return token(Array.get(v, i));
        }
    }

    static String task(String line) throws Exception
    {
        final String[] f = line.split("\t", -1);
        final Class<?> c = Class.forName(f[1]);
        String out;
        try
        {
            if (f[2].equals("T"))
                out = new Graph().all((TypeInfo)c.getMethod("typeInfo").invoke(null));
            else
            {
                final Object o = Replay.read(c, Replay.unhex(f[4]), 0, Integer.parseInt(f[3]), new long[1]);
                final List<String> res = new ArrayList<>();
                if (!f[5].isEmpty())
                    for (String q : f[5].split(" "))
                    {
                        String r;
                        try
                        {
                            r = answer(o, q);
                        }
                        catch (Throwable e)
                        {
                            r = "EXC-" + Replay.cause(e).toString().replaceAll("\\s", "_");
                        }
                        res.add(r);
                    }
                out = String.join(" ", res);
            }
        }
        catch (Throwable e)
        {
            out = "EXC " + Replay.cause(e);
        }
        return f[0] + "\t" + out.replace('\n', ' ').replace('\t', ' ');
    }

    public static void main(String[] a) throws Exception
    {
        final List<String> res = new ArrayList<>();
        for (String l : Files.readAllLines(Paths.get(a[0]), StandardCharsets.US_ASCII))
            res.add(task(l));
        Files.write(Paths.get(a[1]), res, StandardCharsets.UTF_8);
    }
}
