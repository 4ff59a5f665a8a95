import tlc2.value.impl.*;

/** Native evaluation of MtBlocks and SfBlocks of Blocks.tla (checked by MC_Blocks against the definitions there). */
public class Blocks {
  private static int[] ints(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    int[] out = new int[e.length];
    for (int k = 0; k < e.length; k++) out[k] = ((IntValue) e[k]).val;
    return out;
  }
  private static Value tuple(int[] x, int from, int to) {
    Value[] e = new Value[to - from];
    for (int k = from; k < to; k++) e[k - from] = IntValue.gen(x[k]);
    return new TupleValue(e);
  }
  private static int twist(int a, int b, int m) {
    int v = (a & 0x80000000) | (b & 0x7FFFFFFF);
    return m ^ (v >>> 1) ^ (-(v & 1) & 0x9908B0DF);
  }
  private static void mt(int[] x) {
    for (int k = 0; k < 227; k++) x[k] = twist(x[k], x[k + 1], x[k + 397]);
    for (int k = 227; k < 623; k++) x[k] = twist(x[k], x[k + 1], x[k - 227]);
    x[623] = twist(x[623], x[0], x[396]);
  }
  public static Value MtBlocks(Value b, Value q) {
    int[] x = ints(b);
    for (int n = ((IntValue) q).val; n > 0; n--) mt(x);
    return tuple(x, 0, 624);
  }
  private static void sf(int[] x) {
    int y = 616, z = 620;
    for (int k = 0; k < 624; k += 4) {
      int m = k < 136 ? k + 488 : k - 136;
      int a0 = x[k], a1 = x[k + 1], a2 = x[k + 2], a3 = x[k + 3];
      int y0 = x[y], y1 = x[y + 1], y2 = x[y + 2], y3 = x[y + 3];
      x[k] = a0 ^ (a0 << 8) ^ ((x[m] >>> 11) & 0xDFFFFFEF) ^ (y0 >>> 8 | y1 << 24) ^ (x[z] << 18);
      x[k + 1] = a1 ^ (a1 << 8 | a0 >>> 24) ^ ((x[m + 1] >>> 11) & 0xDDFECB7F) ^ (y1 >>> 8 | y2 << 24) ^ (x[z + 1] << 18);
      x[k + 2] = a2 ^ (a2 << 8 | a1 >>> 24) ^ ((x[m + 2] >>> 11) & 0xBFFAFFFF) ^ (y2 >>> 8 | y3 << 24) ^ (x[z + 2] << 18);
      x[k + 3] = a3 ^ (a3 << 8 | a2 >>> 24) ^ ((x[m + 3] >>> 11) & 0xBFFFFFF6) ^ (y3 >>> 8) ^ (x[z + 3] << 18);
      y = z;
      z = k;
    }
  }
  public static Value SfBlocks(Value b, Value q) {
    Value[] e = ((TupleValue) b.toTuple()).elems;
    int[] x = new int[624];
    for (int k = 0; k < 156; k++) System.arraycopy(ints(e[k]), 0, x, 4 * k, 4);
    for (int n = ((IntValue) q).val; n > 0; n--) sf(x);
    Value[] out = new Value[156];
    for (int k = 0; k < 156; k++) out[k] = tuple(x, 4 * k, 4 * k + 4);
    return new TupleValue(out);
  }
}
