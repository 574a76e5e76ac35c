import tlc2.value.impl.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

/** TLC's overrides of the operators of spec/F64.tla. */
public class F64 {
  private static String str(Value v) { return ((StringValue) v).val.toString(); }

  private static double num(Value v) {
    String s = str(v);
    if (s.equals("nan")) return Double.NaN;
    return Double.longBitsToDouble(Long.parseUnsignedLong(s, 16));
  }

  private static StringValue val(double d) { return new StringValue(hex(d)); }

  private static String hex(double d) {
    if (Double.isNaN(d)) return "nan";
    String h = Long.toHexString(Double.doubleToRawLongBits(d));
    return "0".repeat(16 - h.length()) + h;
  }

  private static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value F64Dec(Value t) { return val(Double.parseDouble(str(t))); }

  public static Value F64Bin(Value op, Value a, Value b) {
    double x = num(a), y = num(b);
    switch (str(op)) {
      case "+": return val(x + y);
      case "-": return val(x - y);
      case "*": return val(x * y);
      case "/": return val(x / y);
      case "%": return val(x % y);
      default: throw new RuntimeException("F64Bin " + op);
    }
  }

  public static Value F64Neg(Value a) { return val(-num(a)); }
  public static Value F64Finite(Value a) { double x = num(a); return bool(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value F64IsZero(Value a) { return bool(num(a) == 0); }
  public static Value F64Same(Value a, Value b) {
    double x = num(a), y = num(b);
    return bool(x == y || (Double.isNaN(x) && Double.isNaN(y)));
  }
  public static Value F64Less(Value a, Value b) { return bool(num(a) < num(b)); }
  public static Value F64Negative(Value a) {
    double x = num(a);
    return bool(!Double.isNaN(x) && (Double.doubleToRawLongBits(x) < 0));
  }
  public static Value F64Nat(Value a) {
    double x = num(a);
    return IntValue.gen(x >= 0 && x <= 1000000 && x == Math.rint(x) ? (int) x : -1);
  }
  public static Value F64IsInt(Value a) { double x = num(a); return bool(x == Math.rint(x)); }

  /** n!, multiplied in ascending order in doubles. */
  public static Value F64Fact(Value n) {
    double f = 1;
    for (int i = 2; i <= ((IntValue) n).val; i++) f *= i;
    return val(f);
  }

  // ---------------------------------------------------------------- processes
  private static final Map<String, Prim> prims = new HashMap<>();
  private static final ConcurrentHashMap<String, String> cache = new ConcurrentHashMap<>();

  private static final class Prim {
    final BufferedReader in; final Writer out;
    Prim(String ch) throws IOException {
      String path = System.getProperty("prim." + ch);
      if (path == null) throw new IOException("no -Dprim." + ch);
      Process p = new ProcessBuilder(path).redirectError(ProcessBuilder.Redirect.INHERIT).start();
      p.toHandle();
      Runtime.getRuntime().addShutdownHook(new Thread(p::destroy));
      in = new BufferedReader(new InputStreamReader(p.getInputStream(), StandardCharsets.UTF_8));
      out = new OutputStreamWriter(p.getOutputStream(), StandardCharsets.UTF_8);
    }
    synchronized String ask(String q) throws IOException {
      out.write(q); out.write('\n'); out.flush();
      String r = in.readLine();
      if (r == null) throw new IOException("primd ended");
      return r;
    }
  }

  private static String ask(String ch, String q) {
    return cache.computeIfAbsent(ch + " " + q, k -> {
      try {
        Prim p;
        synchronized (prims) {
          p = prims.get(ch);
          if (p == null) prims.put(ch, p = new Prim(ch));
        }
        String r = p.ask(q);
        if (r.startsWith("?")) throw new RuntimeException("primd: " + q + " -> " + r);
        return r;
      } catch (IOException e) { throw new RuntimeException(e); }
    });
  }

  public static Value F64Lib(Value ch, Value name, Value args) {
    TupleValue t = (TupleValue) args.toTuple();
    StringBuilder q = new StringBuilder(str(name));
    for (Value v : t.elems) q.append(' ').append(str(v));
    return new StringValue(ask(str(ch), q.toString()));
  }

  private static Value chars(String s, boolean conts) {
    List<Value> l = new ArrayList<>();
    for (int i = 0; i < s.length(); ) {
      int c = s.codePointAt(i);
      int n = Character.charCount(c);
      l.add(new StringValue(s.substring(i, i + n)));
      if (conts) {
        int b = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        for (int k = 1; k < b; k++) l.add(new StringValue("~cont"));
      }
      i += n;
    }
    return new TupleValue(l.toArray(new Value[0]));
  }

  public static Value Bytes(Value text) { return chars(str(text), true); }

  public static Value F64Text(Value a) { return new StringValue(ask("s", "text " + str(a))); }
}
