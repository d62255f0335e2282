import java.io.*;
import java.net.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.security.MessageDigest;
import java.util.*;
import java.util.stream.*;

/**
 * Plays histories of source edits, removed outputs and runs of the zserio tool. Every run gets a class loader of its own, as a process has.
 * args: task file, result file, class path of the tool (its own classes first, then libraries)
 * Task line: id, directory, then steps: "R args" (run), "W name base64" (write), "D name" (delete), "J" (new tool), "H name" (hash the files below)
 */
public class Regen
{
    static URL[] urls(String cp) throws Exception
    {
        final List<URL> r = new ArrayList<>();
        for (String e : cp.split(":")) r.add(new File(e).toURI().toURL());
        return r.toArray(new URL[0]);
    }

    public static void main(String[] a) throws Exception
    {
        final String[] cp = a[2].split(":", 2);
        final ClassLoader libs = new URLClassLoader(urls(cp[1]), ClassLoader.getPlatformClassLoader());
        try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0])); PrintWriter out = new PrintWriter(Files.newBufferedWriter(Paths.get(a[1]))))
        {
            for (String l = in.readLine(); l != null; l = in.readLine())
            {
                final String[] f = l.split("\t");
                final Path dir = Paths.get(f[1]);
                Files.createDirectories(dir);
                final Path jar = dir.resolve("tool.jar");
                Files.write(jar, new byte[] {1});
                System.setProperty("java.class.path", jar.toString());
                final StringBuilder res = new StringBuilder(f[0]);
                for (int i = 2; i < f.length; i++)
                {
                    final String[] s = f[i].split(" ");
                    if (s[0].equals("W"))
                    {
                        final Path p = dir.resolve(s[1]);
                        Files.createDirectories(p.getParent());
                        Files.write(p, Base64.getDecoder().decode(s[2]));
                    }
                    else if (s[0].equals("D"))
                        Files.deleteIfExists(dir.resolve(s[1]));
                    else if (s[0].equals("J"))
                        Files.write(jar, new byte[] {2});
                    else if (s[0].equals("R"))
                    {
                        final List<String> args = new ArrayList<>();
                        for (int k = 1; k < s.length; k++) args.add(s[k].replace("@", dir.toString()));
                        final ByteArrayOutputStream b = new ByteArrayOutputStream();
                        final PrintStream ps = new PrintStream(b, false, "UTF-8"), so = System.out, se = System.err;
                        System.setOut(ps);
                        System.setErr(ps);
                        boolean ok = false;
                        try (URLClassLoader tool = new URLClassLoader(urls(cp[0]), libs))
                        {
                            Thread.currentThread().setContextClassLoader(tool);
                            final Class<?> c = tool.loadClass("zserio.tools.ZserioTool");
                            Class<?> e = null;
                            for (Class<?> d : c.getDeclaredClasses()) if (d.isEnum()) e = d;
                            ok = (Boolean)c.getMethod("runTool", String[].class, e).invoke(null, args.toArray(new String[0]), e.getEnumConstants()[0]);
                        }
                        catch (Throwable t)
                        {
                            t.printStackTrace(ps);
                        }
                        ps.flush();
                        System.setOut(so);
                        System.setErr(se);
                        res.append("\t").append(ok ? 1 : 0).append(Base64.getEncoder().encodeToString(b.toByteArray()));
                    }
                    else
                    {
                        final Path root = dir.resolve(s[1]);
                        final StringJoiner j = new StringJoiner(" ");
                        if (Files.exists(root))
                        {
                            final List<Path> ps;
                            try (Stream<Path> w = Files.walk(root)) { ps = w.filter(Files::isRegularFile).sorted().collect(Collectors.toList()); }
                            for (Path p : ps)
                            {
                                final StringBuilder h = new StringBuilder();
                                for (byte x : MessageDigest.getInstance("SHA-1").digest(Files.readAllBytes(p))) h.append(String.format("%02x", x));
                                j.add(root.relativize(p) + "=" + h.substring(0, 16));
                            }
                        }
                        res.append("\t").append(j);
                    }
                }
                out.println(res);
                try (Stream<Path> w = Files.walk(dir)) { for (Path p : w.sorted(Comparator.reverseOrder()).collect(Collectors.toList())) Files.delete(p); }
            }
        }
    }
}
