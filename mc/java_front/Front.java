import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import zserio.tools.ZserioTool;

/**
 * Runs the zserio tool in this process on many small schemas.
 * Input line: id, options (blank separated), main file, then name and base64 text of every file; output line: id, 1/0, base64 of what was printed.
 */
public class Front
{
    public static void main(String[] a) throws Exception
    {
        final Path dir = Paths.get(a[2]);
        final PrintStream err = System.err;
        try (BufferedReader in = Files.newBufferedReader(Paths.get(a[0])); PrintWriter out = new PrintWriter(Files.newBufferedWriter(Paths.get(a[1]))))
        {
            for (String l = in.readLine(); l != null; l = in.readLine())
            {
                final String[] f = l.split("\t");
                final List<Path> written = new ArrayList<>();
                for (int i = 3; i < f.length; i += 2)
                {
                    final Path p = dir.resolve(f[i]);
                    Files.createDirectories(p.getParent());
                    Files.write(p, i + 1 < f.length ? Base64.getDecoder().decode(f[i + 1]) : new byte[0]);
                    written.add(p);
                }
                final List<String> args = new ArrayList<>(Arrays.asList("-src", dir.toString()));
                for (String o : f[1].split(" "))
                    if (!o.isEmpty()) args.add(o.replace("@OUT@", dir.toString()));
                args.add(f[2]);
                final ByteArrayOutputStream b = new ByteArrayOutputStream();
                final PrintStream ps = new PrintStream(b, false, "UTF-8");
                System.setOut(ps);
                System.setErr(ps);
                final boolean ok = ZserioTool.runTool(args.toArray(new String[0]), ZserioTool.Executor.JAVA_MAIN);
                ps.flush();
                for (Path p : written) Files.delete(p);
                out.println(f[0] + "\t" + (ok ? 1 : 0) + "\t" + Base64.getEncoder().encodeToString(b.toString("UTF-8").replace(dir.toString() + File.separator, "").getBytes(StandardCharsets.UTF_8)));
            }
        }
        System.setErr(err);
    }
}
