import java.io.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * IEEE doubles as TLA+ values (a pair of 32-bit ints, opaque to the specification) with primitive operations only.
 * No formula of the system under verification lives here: those are TLA+ operators in ../spec.
 */
public class Reals64 {
  static Value mk(double d) {
    long b = Double.doubleToLongBits(d == 0.0 ? 0.0 : d);
    return new TupleValue(new Value[] { IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b) });
  }
  static double un(Value v) {
    TupleValue t = (TupleValue) v;
    return Double.longBitsToDouble(((long) ((IntValue) t.elems[0]).val << 32) | (((IntValue) t.elems[1]).val & 0xffffffffL));
  }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] elems(Value f) {
    Value t = f.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + f.getKindString());
    return ((TupleValue) t).elems;
  }

  private static final ConcurrentHashMap<util.UniqueString, Value> LIT = new ConcurrentHashMap<>();

  static double parse(String s) {
    int k = s.indexOf('/');
    if (k > 0) return Double.parseDouble(s.substring(0, k)) / Double.parseDouble(s.substring(k + 1));
    if (s.equals("inf")) return Double.POSITIVE_INFINITY;
    if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    if (s.equals("nan")) return Double.NaN;
    return Double.parseDouble(s);
  }

  @TLAPlusOperator(identifier = "R", module = "Reals64", warn = false)
  public static Value R(Value s) {
    util.UniqueString u = ((StringValue) s).val;
    Value v = LIT.get(u);
    if (v == null) { v = mk(parse(u.toString())); LIT.put(u, v); }
    return v;
  }
  @TLAPlusOperator(identifier = "RI", module = "Reals64", warn = false)
  public static Value RI(Value n) { return mk(((IntValue) n).val); }
  @TLAPlusOperator(identifier = "RV", module = "Reals64", warn = false)
  public static Value RV(Value f) {
    Value[] e = elems(f); Value[] r = new Value[e.length];
    for (int i = 0; i < r.length; i++)
      r[i] = e[i] instanceof IntValue ? mk(((IntValue) e[i]).val) : mk(parse(((StringValue) e[i]).val.toString()));
    return new TupleValue(r);
  }
  @TLAPlusOperator(identifier = "RStr", module = "Reals64", warn = false)
  public static Value RStr(Value a) { return new StringValue(Double.toString(un(a))); }
  @TLAPlusOperator(identifier = "RInt", module = "Reals64", warn = false)
  public static Value RInt(Value a) { return IntValue.gen((int) Math.rint(un(a))); }

  @TLAPlusOperator(identifier = "++", module = "Reals64", warn = false)
  public static Value add(Value a, Value b) { return mk(un(a) + un(b)); }
  @TLAPlusOperator(identifier = "--", module = "Reals64", warn = false)
  public static Value sub(Value a, Value b) { return mk(un(a) - un(b)); }
  @TLAPlusOperator(identifier = "**", module = "Reals64", warn = false)
  public static Value mul(Value a, Value b) { return mk(un(a) * un(b)); }
  @TLAPlusOperator(identifier = "//", module = "Reals64", warn = false)
  public static Value div(Value a, Value b) { return mk(un(a) / un(b)); }
  @TLAPlusOperator(identifier = "^^", module = "Reals64", warn = false)
  public static Value pow(Value a, Value b) { return mk(Math.pow(un(a), un(b))); }
  @TLAPlusOperator(identifier = "Sq", module = "Reals64", warn = false)
  public static Value sq(Value a) { double x = un(a); return mk(x * x); }
  @TLAPlusOperator(identifier = "PowI", module = "Reals64", warn = false)
  public static Value powi(Value a, Value n) { return mk(Math.pow(un(a), ((IntValue) n).val)); }
  @TLAPlusOperator(identifier = "Neg", module = "Reals64", warn = false)
  public static Value neg(Value a) { return mk(-un(a)); }
  @TLAPlusOperator(identifier = "RAbs", module = "Reals64", warn = false)
  public static Value abs(Value a) { return mk(Math.abs(un(a))); }
  @TLAPlusOperator(identifier = "RSqrt", module = "Reals64", warn = false)
  public static Value sqrt(Value a) { return mk(Math.sqrt(un(a))); }
  @TLAPlusOperator(identifier = "RExp", module = "Reals64", warn = false)
  public static Value exp(Value a) { return mk(Math.exp(un(a))); }
  @TLAPlusOperator(identifier = "RLn", module = "Reals64", warn = false)
  public static Value ln(Value a) { return mk(Math.log(un(a))); }
  @TLAPlusOperator(identifier = "RLog10", module = "Reals64", warn = false)
  public static Value log10(Value a) { return mk(Math.log10(un(a))); }
  @TLAPlusOperator(identifier = "RSin", module = "Reals64", warn = false)
  public static Value sin(Value a) { return mk(Math.sin(un(a))); }
  @TLAPlusOperator(identifier = "RCos", module = "Reals64", warn = false)
  public static Value cos(Value a) { return mk(Math.cos(un(a))); }
  @TLAPlusOperator(identifier = "RTanh", module = "Reals64", warn = false)
  public static Value tanh(Value a) { return mk(Math.tanh(un(a))); }
  @TLAPlusOperator(identifier = "RMin", module = "Reals64", warn = false)
  public static Value min(Value a, Value b) { return mk(Math.min(un(a), un(b))); }
  @TLAPlusOperator(identifier = "RMax", module = "Reals64", warn = false)
  public static Value max(Value a, Value b) { return mk(Math.max(un(a), un(b))); }
  @TLAPlusOperator(identifier = "RCeil", module = "Reals64", warn = false)
  public static Value ceil(Value a) { return mk(Math.ceil(un(a))); }

  @TLAPlusOperator(identifier = "RLt", module = "Reals64", warn = false)
  public static Value lt(Value a, Value b) { return bool(un(a) < un(b)); }
  @TLAPlusOperator(identifier = "RLe", module = "Reals64", warn = false)
  public static Value le(Value a, Value b) { return bool(un(a) <= un(b)); }
  @TLAPlusOperator(identifier = "REq", module = "Reals64", warn = false)
  public static Value eq(Value a, Value b) { return bool(un(a) == un(b)); }
  @TLAPlusOperator(identifier = "IsNaN", module = "Reals64", warn = false)
  public static Value isnan(Value a) { return bool(Double.isNaN(un(a))); }
  @TLAPlusOperator(identifier = "IsFinite", module = "Reals64", warn = false)
  public static Value isfin(Value a) { double d = un(a); return bool(!Double.isNaN(d) && !Double.isInfinite(d)); }

  static boolean close(double x, double y, double rt, double at) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (x == y) return true;
    if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
  }
  @TLAPlusOperator(identifier = "Close", module = "Reals64", warn = false)
  public static Value Close(Value a, Value b, Value rt, Value at) { return bool(close(un(a), un(b), un(rt), un(at))); }
  /** Elementwise Close of two sequences of reals, FALSE when lengths differ. */
  @TLAPlusOperator(identifier = "CloseV", module = "Reals64", warn = false)
  public static Value CloseV(Value a, Value b, Value rt, Value at) {
    Value[] x = elems(a), y = elems(b);
    if (x.length != y.length) return BoolValue.ValFalse;
    double r = un(rt), t = un(at);
    for (int i = 0; i < x.length; i++) if (!close(un(x[i]), un(y[i]), r, t)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }

  @TLAPlusOperator(identifier = "Sum", module = "Reals64", warn = false)
  public static Value sum(Value f) {
    double s = 0, c = 0;
    for (Value v : elems(f)) { double y = un(v) - c, t = s + y; c = (t - s) - y; if (Double.isNaN(c)) c = 0; s = t; }
    return mk(s);
  }
  @TLAPlusOperator(identifier = "ArgMax", module = "Reals64", warn = false)
  public static Value argmax(Value f) {
    Value[] e = elems(f); int k = 0;
    for (int i = 1; i < e.length; i++) if (un(e[i]) > un(e[k])) k = i;
    return IntValue.gen(k + 1);
  }
  @TLAPlusOperator(identifier = "MaxV", module = "Reals64", warn = false)
  public static Value maxv(Value f) { double m = Double.NEGATIVE_INFINITY; for (Value v : elems(f)) m = Math.max(m, un(v)); return mk(m); }
  @TLAPlusOperator(identifier = "MinV", module = "Reals64", warn = false)
  public static Value minv(Value f) { double m = Double.POSITIVE_INFINITY; for (Value v : elems(f)) m = Math.min(m, un(v)); return mk(m); }

  // ---- Bessel functions of the first kind, integer order, real argument >= 0 (Miller's backward recurrence)
  private static final class Bes { double x = Double.NaN; double[] j = new double[0]; }
  private static final ThreadLocal<Bes> BES = ThreadLocal.withInitial(Bes::new);
  static double besselj(int n, double x) {
    if (n < 0) return (n % 2 == 0 ? 1 : -1) * besselj(-n, x);
    if (x == 0.0) return n == 0 ? 1.0 : 0.0;
    if (x < 0) return (n % 2 == 0 ? 1 : -1) * besselj(n, -x);
    Bes b = BES.get();
    if (b.x != x || b.j.length <= n) {
      int top = n + 6;
      double big = Math.max(top, x);
      int start = (int) (big + 40 + 12 * Math.cbrt(big) + Math.sqrt(8 * big));
      if (start % 2 == 1) start++;
      double[] j = new double[top + 1];
      double jp1 = 0, jk = 1e-300, sum = 0;
      for (int k = start; k > 0; k--) {
        double jm1 = 2.0 * k / x * jk - jp1;
        jp1 = jk; jk = jm1;                       // jk now has order k-1
        if (Math.abs(jk) > 1e250) { jk *= 1e-250; jp1 *= 1e-250; sum *= 1e-250; for (int i = 0; i <= top; i++) j[i] *= 1e-250; }
        if (k - 1 <= top) j[k - 1] = jk;
        if ((k - 1) % 2 == 0) sum += (k - 1 == 0 ? 1 : 2) * jk;
      }
      for (int i = 0; i <= top; i++) j[i] /= sum;
      b.x = x; b.j = j;
    }
    return b.j[n];
  }
  @TLAPlusOperator(identifier = "BesselJ", module = "Reals64", warn = false)
  public static Value BesselJ(Value n, Value x) { return mk(besselj(((IntValue) n).val, un(x))); }

  // ---- natural-language-free table interpolation: not-a-knot cubic spline through the points of a two-column text file
  private static final class Spl { double[] x, y, m; }
  private static final ConcurrentHashMap<String, Spl> SPL = new ConcurrentHashMap<>();
  static Spl load(String name) {
    try {
      List<String> ls = Files.readAllLines(Paths.get(System.getProperty("verif.data", "."), name));
      int n = 0; for (String l : ls) if (!l.isBlank()) n++;
      Spl s = new Spl(); s.x = new double[n]; s.y = new double[n]; int i = 0;
      for (String l : ls) { if (l.isBlank()) continue; String[] p = l.trim().split("\\s+"); s.x[i] = Double.parseDouble(p[0]); s.y[i++] = Double.parseDouble(p[1]); }
      s.m = second(s.x, s.y); return s;
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  /** second derivatives of the not-a-knot cubic spline (dense-banded elimination on the interior unknowns) */
  static double[] second(double[] x, double[] y) {
    int n = x.length; double[] h = new double[n - 1], d = new double[n - 1];
    for (int i = 0; i < n - 1; i++) { h[i] = x[i + 1] - x[i]; d[i] = (y[i + 1] - y[i]) / h[i]; }
    double[] a = new double[n], b = new double[n], c = new double[n], r = new double[n];
    for (int i = 1; i < n - 1; i++) { a[i] = h[i - 1]; b[i] = 2 * (h[i - 1] + h[i]); c[i] = h[i]; r[i] = 6 * (d[i] - d[i - 1]); }
    // not-a-knot: m0 = m1 (1 + h0/h1) - m2 h0/h1 ; m_{n-1} = m_{n-2} (1 + k) - m_{n-3} k, k = h_{n-2}/h_{n-3}
    double k0 = h[0] / h[1], k1 = h[n - 2] / h[n - 3];
    b[1] += a[1] * (1 + k0); c[1] -= a[1] * k0;
    b[n - 2] += c[n - 2] * (1 + k1); a[n - 2] -= c[n - 2] * k1;
    double[] m = new double[n];
    for (int i = 2; i < n - 1; i++) { double w = a[i] / b[i - 1]; b[i] -= w * c[i - 1]; r[i] -= w * r[i - 1]; }
    m[n - 2] = r[n - 2] / b[n - 2];
    for (int i = n - 3; i >= 1; i--) m[i] = (r[i] - c[i] * m[i + 1]) / b[i];
    m[0] = m[1] * (1 + k0) - m[2] * k0; m[n - 1] = m[n - 2] * (1 + k1) - m[n - 3] * k1;
    return m;
  }
  static double eval(Spl s, double t) {
    int lo = 0, hi = s.x.length - 1;
    while (hi - lo > 1) { int mid = (lo + hi) >>> 1; if (s.x[mid] > t) hi = mid; else lo = mid; }
    double h = s.x[hi] - s.x[lo], A = (s.x[hi] - t) / h, B = (t - s.x[lo]) / h;
    return A * s.y[lo] + B * s.y[hi] + ((A * A * A - A) * s.m[lo] + (B * B * B - B) * s.m[hi]) * h * h / 6;
  }
  @TLAPlusOperator(identifier = "TableSpline", module = "Reals64", warn = false)
  public static Value TableSpline(Value name, Value t) {
    return mk(eval(SPL.computeIfAbsent(((StringValue) name).val.toString(), Reals64::load), un(t)));
  }

  /** A deterministic pseudo-random pick of n elements of a finite sequence-or-record-set index space: n distinct ints in 1..m */
  @TLAPlusOperator(identifier = "PickInts", module = "Reals64", warn = false)
  public static Value PickInts(Value n, Value m, Value seed) {
    int k = ((IntValue) n).val, mm = ((IntValue) m).val;
    Random r = new Random(((IntValue) seed).val * 7919L + 17);
    LinkedHashSet<Integer> s = new LinkedHashSet<>();
    if (k >= mm) for (int i = 1; i <= mm; i++) s.add(i);
    else while (s.size() < k) s.add(1 + r.nextInt(mm));
    Value[] v = new Value[s.size()]; int i = 0; for (int x : s) v[i++] = IntValue.gen(x);
    return new TupleValue(v);
  }

  /** n integers of 1..m, each value as often as any other (to within one), in a pseudo-random order */
  @TLAPlusOperator(identifier = "BalancedPick", module = "Reals64", warn = false)
  public static Value BalancedPick(Value n, Value m, Value seed, Value salt) {
    int k = ((IntValue) n).val, mm = ((IntValue) m).val;
    Random r = new Random(((IntValue) seed).val * 1000003L + ((StringValue) salt).val.toString().hashCode());
    List<Integer> pool = new ArrayList<>();
    while (pool.size() < k) {
      List<Integer> block = new ArrayList<>();
      for (int i = 1; i <= mm; i++) block.add(i);
      Collections.shuffle(block, r);
      pool.addAll(block);
    }
    pool = new ArrayList<>(pool.subList(0, k));
    Collections.shuffle(pool, r);
    Value[] v = new Value[k];
    for (int i = 0; i < k; i++) v[i] = IntValue.gen(pool.get(i));
    return new TupleValue(v);
  }
}
