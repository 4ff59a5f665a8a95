import tlc2.value.impl.*;

/** Native evaluation of FindPid of Pids.tla (checked by MC_Pids against the definitions there). */
public class Pids {
  private static int num(Value v) { return ((IntValue) v).val; }
  public static Value FindPid(Value start, Value nature, Value charm, Value lead, Value ratio, Value species, Value form) {
    int s = num(start), n = num(nature), r = num(ratio), f = num(form);
    boolean asks = ((BoolValue) charm).val, least = num(lead) == 25, unown = num(species) == 201;
    for (long tries = 0; tries < 1L << 32; tries++) {
      int a = s * 0x41C64E6D + 0x6073;
      s = a * 0x41C64E6D + 0x6073;
      int pid = (a >>> 16) | (s & 0xFFFF0000);
      if (Integer.remainderUnsigned(pid, 25) != n) continue;
      if (asks && ((pid & 255) >= r) != least) continue;
      if (unown && ((pid >>> 24 & 3) << 6 | (pid >>> 16 & 3) << 4 | (pid >>> 8 & 3) << 2 | pid & 3) % 28 != f) continue;
      return new TupleValue(new Value[] {IntValue.gen(pid), IntValue.gen(s)});
    }
    throw new RuntimeException("no such personality value");
  }
}
