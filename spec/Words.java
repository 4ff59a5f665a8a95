import tlc2.value.impl.*;

/** Native evaluation of the operators of Words.tla (checked by MC_Words against WordsPure). */
public class Words {
  private static int i(Value v) { return ((IntValue) v).val; }
  private static Value w(int x) { return IntValue.gen(x); }
  private static long l(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    return ((long) i(e[0]) << 32) | (i(e[1]) & 0xFFFFFFFFL);
  }
  private static Value ww(long x) {
    return new TupleValue(new Value[] { IntValue.gen((int) (x >>> 32)), IntValue.gen((int) x) });
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value Add32(Value x, Value y) { return w(i(x) + i(y)); }
  public static Value Sub32(Value x, Value y) { return w(i(x) - i(y)); }
  public static Value And32(Value x, Value y) { return w(i(x) & i(y)); }
  public static Value Or32(Value x, Value y) { return w(i(x) | i(y)); }
  public static Value Xor32(Value x, Value y) { return w(i(x) ^ i(y)); }
  public static Value Shl32(Value x, Value k) { return w(i(k) >= 32 ? 0 : i(x) << i(k)); }
  public static Value Shr32(Value x, Value k) { return w(i(k) >= 32 ? 0 : i(x) >>> i(k)); }
  public static Value Rotl32(Value x, Value k) { return w(Integer.rotateLeft(i(x), i(k))); }
  public static Value Rotr32(Value x, Value k) { return w(Integer.rotateRight(i(x), i(k))); }
  public static Value Mul32(Value x, Value y) { return w(i(x) * i(y)); }
  public static Value MulHi32(Value x, Value y) {
    return w((int) (((i(x) & 0xFFFFFFFFL) * (i(y) & 0xFFFFFFFFL)) >>> 32));
  }
  public static Value MulWide(Value x, Value y) {
    return ww((i(x) & 0xFFFFFFFFL) * (i(y) & 0xFFFFFFFFL));
  }
  public static Value Div32(Value x, Value y) { return w(Integer.divideUnsigned(i(x), i(y))); }
  public static Value Mod32(Value x, Value y) { return w(Integer.remainderUnsigned(i(x), i(y))); }
  public static Value Lt32(Value x, Value y) { return b(Integer.compareUnsigned(i(x), i(y)) < 0); }
  public static Value Bit32(Value x, Value k) { return w((i(x) >>> i(k)) & 1); }
  public static Value Not32(Value x) { return w(~i(x)); }
  public static Value Neg32(Value x) { return w(-i(x)); }

  public static Value Add64(Value x, Value y) { return ww(l(x) + l(y)); }
  public static Value Sub64(Value x, Value y) { return ww(l(x) - l(y)); }
  public static Value And64(Value x, Value y) { return ww(l(x) & l(y)); }
  public static Value Or64(Value x, Value y) { return ww(l(x) | l(y)); }
  public static Value Xor64(Value x, Value y) { return ww(l(x) ^ l(y)); }
  public static Value Shl64(Value x, Value k) { return ww(i(k) >= 64 ? 0 : l(x) << i(k)); }
  public static Value Shr64(Value x, Value k) { return ww(i(k) >= 64 ? 0 : l(x) >>> i(k)); }
  public static Value Rotl64(Value x, Value k) { return ww(Long.rotateLeft(l(x), i(k))); }
  public static Value Rotr64(Value x, Value k) { return ww(Long.rotateRight(l(x), i(k))); }
  public static Value Mul64(Value x, Value y) { return ww(l(x) * l(y)); }
  public static Value Div64(Value x, Value y) { return ww(Long.divideUnsigned(l(x), l(y))); }
  public static Value Mod64(Value x, Value y) { return ww(Long.remainderUnsigned(l(x), l(y))); }
  public static Value Lt64(Value x, Value y) { return b(Long.compareUnsigned(l(x), l(y)) < 0); }
  public static Value Bit64(Value x, Value k) { return w((int) (l(x) >>> i(k)) & 1); }
  public static Value Not64(Value x) { return ww(~l(x)); }
  public static Value Neg64(Value x) { return ww(-l(x)); }

  /** the code points of a text */
  public static Value Codes(Value s) {
    return new TupleValue(((StringValue) s).val.toString().codePoints().mapToObj(IntValue::gen).toArray(Value[]::new));
  }
}
