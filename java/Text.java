import tlc2.value.impl.*;

/** TLC's overrides of the recursive operators of spec/Text.tla, for long texts. */
public class Text {
  private static Value[] elems(Value txt) { return ((TupleValue) txt.toTuple()).elems; }

  private static int nat(Value v) { return ((IntValue) v).val; }

  private static String str(Value v) { return ((StringValue) v).val.toString(); }

  public static Value SkipIn(Value txt, Value p, Value s) {
    Value[] t = elems(txt);
    int i = nat(p);
    while (i < t.length && s.member(t[i])) i++;
    return IntValue.gen(i);
  }

  public static Value Glue(Value txt, Value p, Value q) { return glue(txt, p, q, "~cont"); }

  public static Value GlueBut(Value txt, Value p, Value q, Value c) { return glue(txt, p, q, str(c)); }

  private static Value glue(Value txt, Value p, Value q, String but) {
    Value[] t = elems(txt);
    StringBuilder b = new StringBuilder();
    for (int i = nat(p); i < nat(q); i++) {
      String c = str(t[i]);
      if (!c.equals(but)) b.append(c);
    }
    return new StringValue(b.toString());
  }

  public static Value CountIn(Value txt, Value p, Value q, Value s) {
    Value[] t = elems(txt);
    int n = 0;
    for (int i = nat(p); i < nat(q); i++) if (s.member(t[i])) n++;
    return IntValue.gen(n);
  }
}
