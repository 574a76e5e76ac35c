import tlc2.tool.EvalControl;
import tlc2.value.impl.*;

/** TLC's override of spec/Iter.tla. */
public class Iter {
  public static Value Iterate(OpValue f, OpValue done, Value x) {
    Value[] a = new Value[1];
    for (;;) {
      a[0] = x;
      if (((BoolValue) done.eval(a, EvalControl.Clear)).val) return x;
      a = new Value[1];
      a[0] = x;
      x = (Value) f.eval(a, EvalControl.Clear);
      x.deepNormalize();
      a = new Value[1];
    }
  }
}
