import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * Java implementation of the operators declared in spec/Real64.tla: double-precision
 * real arithmetic, exactly like TLC's own Java implementation of Integers.  A real is
 * the pair <<hi, lo>> of the two 32-bit halves of its IEEE-754 representation; deep
 * operators work element-wise on (nested) sequences of reals.
 */
public class Real64Overrides implements ITLCOverrides {

  @Override
  @SuppressWarnings("rawtypes")
  public Class[] get() {
    return new Class[] {Real64Overrides.class};
  }

  static Value mk(double d) {
    if (d == 0.0) d = 0.0; // normalise -0
    long b = Double.doubleToLongBits(d);
    return new TupleValue(
        new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }

  static TupleValue tup(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Real64: not a sequence: " + v);
    return t;
  }

  static boolean isSeq(Value v) {
    if (v instanceof RecordValue || v instanceof IntValue || v instanceof StringValue
        || v instanceof BoolValue) return false;
    return v instanceof TupleValue || v.toTuple() != null;
  }

  static boolean isReal(Value v) {
    if (!isSeq(v)) return false;
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    return t != null
        && t.elems.length == 2
        && t.elems[0] instanceof IntValue
        && t.elems[1] instanceof IntValue;
  }

  static double d(Value v) {
    TupleValue t = tup(v);
    if (t.elems.length != 2) throw new RuntimeException("Real64: not a real: " + v);
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }

  static double[] vec(Value v) {
    TupleValue t = tup(v);
    double[] r = new double[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
    return r;
  }

  static double[][] mat(Value v) {
    TupleValue t = tup(v);
    double[][] r = new double[t.elems.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(t.elems[i]);
    return r;
  }

  static Value mk(double[] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = mk(a[i]);
    return new TupleValue(r);
  }

  static Value mk(double[][] a) {
    Value[] r = new Value[a.length];
    for (int i = 0; i < a.length; i++) r[i] = mk(a[i]);
    return new TupleValue(r);
  }

  static Value b(boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  @TLAPlusOperator(identifier = "RInt", module = "Real64", warn = false)
  public static Value rint(IntValue i) { return mk((double) i.val); }

  @TLAPlusOperator(identifier = "RFrac", module = "Real64", warn = false)
  public static Value rfrac(IntValue a, IntValue b) { return mk((double) a.val / b.val); }

  static String str(Value v) { return ((StringValue) v).val.toString(); }

  static Double parse(String s) {
    // exactly the decimal notation: no hex, no type suffixes, no nan/inf
    if (!s.matches("[+-]?([0-9]+([.][0-9]*)?|[.][0-9]+)([eE][+-]?[0-9]+)?")) return null;
    return Double.valueOf(s);
  }

  @TLAPlusOperator(identifier = "RIsNum", module = "Real64", warn = false)
  public static Value risnum(Value s) { return b(parse(str(s)) != null); }

  @TLAPlusOperator(identifier = "RDec", module = "Real64", warn = false)
  public static Value rdec(Value s) {
    Double x = parse(str(s));
    return mk(x == null ? Double.NaN : x);
  }

  @TLAPlusOperator(identifier = "RIsInt", module = "Real64", warn = false)
  public static Value risint(Value s) { return b(str(s).matches("[+-]?[0-9]{1,9}")); }

  @TLAPlusOperator(identifier = "RDecInt", module = "Real64", warn = false)
  public static Value rdecint(Value s) { return IntValue.gen(Integer.parseInt(str(s))); }

  @TLAPlusOperator(identifier = "RStr", module = "Real64", warn = false)
  public static Value rstr(Value a) { return new StringValue(Double.toString(d(a))); }

  @TLAPlusOperator(identifier = "RIsFinite", module = "Real64", warn = false)
  public static Value rfin(Value a) { return b(fin(a)); }

  static boolean fin(Value v) {
    if (!isSeq(v)) return false;
    if (isReal(v)) return Double.isFinite(d(v));
    for (Value e : tup(v).elems) if (!fin(e)) return false;
    return true;
  }

  @TLAPlusOperator(identifier = "RAdd", module = "Real64", warn = false)
  public static Value radd(Value x, Value y) { return mk(d(x) + d(y)); }

  @TLAPlusOperator(identifier = "RSub", module = "Real64", warn = false)
  public static Value rsub(Value x, Value y) { return mk(d(x) - d(y)); }

  @TLAPlusOperator(identifier = "RMul", module = "Real64", warn = false)
  public static Value rmul(Value x, Value y) { return mk(d(x) * d(y)); }

  @TLAPlusOperator(identifier = "RDiv", module = "Real64", warn = false)
  public static Value rdiv(Value x, Value y) { return mk(d(x) / d(y)); }

  @TLAPlusOperator(identifier = "RNeg", module = "Real64", warn = false)
  public static Value rneg(Value x) { return mk(-d(x)); }

  @TLAPlusOperator(identifier = "RAbs", module = "Real64", warn = false)
  public static Value rabs(Value x) { return mk(Math.abs(d(x))); }

  @TLAPlusOperator(identifier = "RSqrt", module = "Real64", warn = false)
  public static Value rsqrt(Value x) { return mk(Math.sqrt(d(x))); }

  @TLAPlusOperator(identifier = "RCbrt", module = "Real64", warn = false)
  public static Value rcbrt(Value x) { return mk(Math.cbrt(d(x))); }

  @TLAPlusOperator(identifier = "RExp", module = "Real64", warn = false)
  public static Value rexp(Value x) { return mk(Math.exp(d(x))); }

  @TLAPlusOperator(identifier = "RCos", module = "Real64", warn = false)
  public static Value rcos(Value x) { return mk(Math.cos(d(x))); }

  @TLAPlusOperator(identifier = "RSin", module = "Real64", warn = false)
  public static Value rsin(Value x) { return mk(Math.sin(d(x))); }

  @TLAPlusOperator(identifier = "RPi", module = "Real64", warn = false)
  public static Value rpi() { return mk(Math.PI); }

  @TLAPlusOperator(identifier = "RFloor", module = "Real64", warn = false)
  public static Value rfloor(Value x) { return mk(Math.floor(d(x))); }

  @TLAPlusOperator(identifier = "RRound", module = "Real64", warn = false)
  public static Value rround(Value x) { return mk(Math.rint(d(x))); }

  @TLAPlusOperator(identifier = "RToInt", module = "Real64", warn = false)
  public static Value rtoint(Value x) { return IntValue.gen((int) Math.rint(d(x))); }

  @TLAPlusOperator(identifier = "RLt", module = "Real64", warn = false)
  public static Value rlt(Value x, Value y) { return b(d(x) < d(y)); }

  @TLAPlusOperator(identifier = "RLe", module = "Real64", warn = false)
  public static Value rle(Value x, Value y) { return b(d(x) <= d(y)); }

  @TLAPlusOperator(identifier = "RMaxAbs", module = "Real64", warn = false)
  public static Value rmaxabs(Value x) { return mk(maxabs(x)); }

  static double maxabs(Value v) {
    if (!isSeq(v)) return Double.POSITIVE_INFINITY;
    if (isReal(v)) {
      double x = Math.abs(d(v));
      return Double.isNaN(x) ? Double.POSITIVE_INFINITY : x;
    }
    double m = 0;
    for (Value e : tup(v).elems) m = Math.max(m, maxabs(e));
    return m;
  }

  /** Same shape and all entries finite and within tol. */
  @TLAPlusOperator(identifier = "RClose", module = "Real64", warn = false)
  public static Value rclose(Value x, Value y, Value tol) { return b(close(x, y, d(tol))); }

  static boolean close(Value x, Value y, double tol) {
    boolean rx = isReal(x), ry = isReal(y);
    if (rx != ry || !isSeq(x) || !isSeq(y)) return false;
    if (rx) return Math.abs(d(x) - d(y)) <= tol;
    TupleValue a = tup(x), c = tup(y);
    if (a.elems.length != c.elems.length) return false;
    for (int i = 0; i < a.elems.length; i++) if (!close(a.elems[i], c.elems[i], tol)) return false;
    return true;
  }

  interface Op { double f(double x, double y); }

  static Value deep(Value x, Value y, Op op) {
    if (isReal(x) && isReal(y)) return mk(op.f(d(x), d(y)));
    TupleValue a = tup(x), c = tup(y);
    if (a.elems.length != c.elems.length) throw new RuntimeException("Real64: shapes differ");
    Value[] r = new Value[a.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = deep(a.elems[i], c.elems[i], op);
    return new TupleValue(r);
  }

  static Value map(double s, Value y, Op op) {
    if (isReal(y)) return mk(op.f(s, d(y)));
    TupleValue c = tup(y);
    Value[] r = new Value[c.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = map(s, c.elems[i], op);
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "RVAdd", module = "Real64", warn = false)
  public static Value rvadd(Value x, Value y) { return deep(x, y, (p, q) -> p + q); }

  @TLAPlusOperator(identifier = "RVSub", module = "Real64", warn = false)
  public static Value rvsub(Value x, Value y) { return deep(x, y, (p, q) -> p - q); }

  @TLAPlusOperator(identifier = "RVMul", module = "Real64", warn = false)
  public static Value rvmul(Value x, Value y) { return deep(x, y, (p, q) -> p * q); }

  @TLAPlusOperator(identifier = "RVScale", module = "Real64", warn = false)
  public static Value rvscale(Value s, Value y) { return map(d(s), y, (p, q) -> p * q); }

  @TLAPlusOperator(identifier = "RVWrapPos", module = "Real64", warn = false)
  public static Value rvwp(Value y) { return map(0, y, (p, q) -> q - Math.floor(q)); }

  @TLAPlusOperator(identifier = "RVMinImg", module = "Real64", warn = false)
  public static Value rvmi(Value y) { return map(0, y, (p, q) -> q - Math.rint(q)); }

  static double dot(Value x, Value y) {
    if (isReal(x) && isReal(y)) return d(x) * d(y);
    TupleValue a = tup(x), c = tup(y);
    if (a.elems.length != c.elems.length) throw new RuntimeException("Real64: shapes differ");
    double s = 0;
    for (int i = 0; i < a.elems.length; i++) s += dot(a.elems[i], c.elems[i]);
    return s;
  }

  @TLAPlusOperator(identifier = "RDot", module = "Real64", warn = false)
  public static Value rdot(Value x, Value y) { return mk(dot(x, y)); }

  static double sum(Value x) {
    if (isReal(x)) return d(x);
    double s = 0;
    for (Value e : tup(x).elems) s += sum(e);
    return s;
  }

  @TLAPlusOperator(identifier = "RSum", module = "Real64", warn = false)
  public static Value rsum(Value x) { return mk(sum(x)); }

  static double[][] mm(double[][] a, double[][] c) {
    double[][] r = new double[a.length][c[0].length];
    for (int i = 0; i < a.length; i++)
      for (int j = 0; j < c[0].length; j++)
        for (int k = 0; k < c.length; k++) r[i][j] += a[i][k] * c[k][j];
    return r;
  }

  @TLAPlusOperator(identifier = "RMatMul", module = "Real64", warn = false)
  public static Value rmatmul(Value x, Value y) { return mk(mm(mat(x), mat(y))); }

  @TLAPlusOperator(identifier = "RTransp", module = "Real64", warn = false)
  public static Value rtransp(Value x) {
    double[][] a = mat(x);
    double[][] r = new double[a[0].length][a.length];
    for (int i = 0; i < a.length; i++) for (int j = 0; j < a[0].length; j++) r[j][i] = a[i][j];
    return mk(r);
  }

  static double det3(double[][] m) {
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  }

  @TLAPlusOperator(identifier = "RDet3", module = "Real64", warn = false)
  public static Value rdet3(Value x) { return mk(det3(mat(x))); }

  @TLAPlusOperator(identifier = "RInv3", module = "Real64", warn = false)
  public static Value rinv3(Value x) {
    double[][] m = mat(x);
    double det = det3(m);
    double[][] r = new double[3][3];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
        r[i][j] = (m[a][c] * m[b][e] - m[a][e] * m[b][c]) / det;
      }
    return mk(r);
  }

  @TLAPlusOperator(identifier = "RVShift", module = "Real64", warn = false)
  public static Value rvshift(Value s, Value y) { return map(d(s), y, (p, q) -> p + q); }

  @TLAPlusOperator(identifier = "RSameShape", module = "Real64", warn = false)
  public static Value rsameshape(Value x, Value y) { return b(shape(x, y)); }

  static boolean shape(Value x, Value y) {
    if (!isSeq(x) || !isSeq(y)) return false;
    boolean rx = isReal(x), ry = isReal(y);
    if (rx || ry) return rx && ry;
    TupleValue a = tup(x), c = tup(y);
    if (a.elems.length != c.elems.length) return false;
    for (int i = 0; i < a.elems.length; i++) if (!shape(a.elems[i], c.elems[i])) return false;
    return true;
  }

  interface RowOp { double[] f(double[] row); }

  static Value rows(Value y, RowOp op) {
    TupleValue c = tup(y);
    if (c.elems.length > 0 && isReal(c.elems[0])) return mk(op.f(vec(y)));
    Value[] r = new Value[c.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = rows(c.elems[i], op);
    return new TupleValue(r);
  }

  @TLAPlusOperator(identifier = "RRowsMul", module = "Real64", warn = false)
  public static Value rrowsmul(Value x, Value m) {
    double[][] a = mat(m);
    return rows(x, row -> mm(new double[][] {row}, a)[0]);
  }

  @TLAPlusOperator(identifier = "RRowsAdd", module = "Real64", warn = false)
  public static Value rrowsadd(Value x, Value t) {
    double[] s = vec(t);
    return rows(
        x,
        row -> {
          double[] r = row.clone();
          for (int i = 0; i < r.length; i++) r[i] += s[i];
          return r;
        });
  }

  @TLAPlusOperator(identifier = "RMax", module = "Real64", warn = false)
  public static Value rmax(Value x) { return mk(max(x)); }

  static double max(Value v) {
    if (isReal(v)) return d(v);
    double m = Double.NEGATIVE_INFINITY;
    for (Value e : tup(v).elems) m = Math.max(m, max(e));
    return m;
  }

  @TLAPlusOperator(identifier = "RLog", module = "Real64", warn = false)
  public static Value rlog(Value x) { return mk(Math.log(d(x))); }

  @TLAPlusOperator(identifier = "RVMap", module = "Real64", warn = false)
  public static Value rvmap(Value f, Value y) {
    String s = str(f);
    Op op =
        s.equals("exp") ? (p, q) -> Math.exp(q)
            : s.equals("sqrt") ? (p, q) -> Math.sqrt(q)
                : s.equals("abs") ? (p, q) -> Math.abs(q)
                    : s.equals("cos") ? (p, q) -> Math.cos(q)
                        : s.equals("sin") ? (p, q) -> Math.sin(q)
                            : s.equals("inv") ? (p, q) -> 1 / q
                                : s.equals("f32") ? (p, q) -> (double) (float) q : null;
    if (op == null) throw new RuntimeException("Real64: RVMap " + s);
    return map(0, y, op);
  }

  @TLAPlusOperator(identifier = "RIsReal", module = "Real64", warn = false)
  public static Value risreal(Value x) { return b(isReal(x)); }

  /** Deep equality (reals up to rounding, 1e-12 relative); FALSE, not an error, for values of different kinds. */
  @TLAPlusOperator(identifier = "RSame", module = "Real64", warn = false)
  public static Value rsame(Value x, Value y) { return b(same(x, y)); }

  static boolean same(Value x, Value y) {
    if (x instanceof RecordValue && y instanceof RecordValue) {
      RecordValue a = (RecordValue) x, c = (RecordValue) y;
      a.normalize();
      c.normalize();
      if (a.names.length != c.names.length) return false;
      for (int i = 0; i < a.names.length; i++)
        if (!a.names[i].equals(c.names[i]) || !same(a.values[i], c.values[i])) return false;
      return true;
    }
    if (isSeq(x) && isSeq(y)) {
      TupleValue a = tup(x), c = tup(y);
      if (a.elems.length != c.elems.length) return false;
      if (isReal(a) && isReal(c)) {
        double p = d(a), q = d(c);
        return Double.doubleToLongBits(p) == Double.doubleToLongBits(q) || Math.abs(p - q) <= 1e-12 * Math.abs(p);
      }
      for (int i = 0; i < a.elems.length; i++) if (!same(a.elems[i], c.elems[i])) return false;
      return true;
    }
    if (x instanceof IntValue && y instanceof IntValue) return ((IntValue) x).val == ((IntValue) y).val;
    if (x.getClass() != y.getClass()) return false;
    return x.equals(y);
  }
}
