package tlc2.module;

import tlc2.value.impl.*;

/** TLC module override for spec/QMatPrim.tla (same functions, faster). */
public class QMatPrim {
  public static final long serialVersionUID = 20260101L;
  static final long P = 31391;

  static TupleValue tup(Value v) { return (TupleValue) v.toTuple(); }
  static int num(Value v) { return ((IntValue) v).val; }
  static int[] seq(Value v) {
    TupleValue t = tup(v);
    int[] r = new int[t.elems.length];
    for (int k = 0; k < r.length; k++) r[k] = num(t.elems[k]);
    return r;
  }
  // matrices as long[rows][2*cols]
  static int[][] mat(Value v) {
    TupleValue t = tup(v);
    int[][] r = new int[t.elems.length][];
    for (int i = 0; i < r.length; i++) {
      TupleValue row = tup(t.elems[i]);
      r[i] = new int[2 * row.elems.length];
      for (int j = 0; j < row.elems.length; j++) {
        TupleValue p = tup(row.elems[j]);
        r[i][2 * j] = num(p.elems[0]);
        r[i][2 * j + 1] = num(p.elems[1]);
      }
    }
    return r;
  }
  static final Value ZERO = pair(0, 0);
  static Value pair(int a, int b) {
    return new TupleValue(new Value[] { IntValue.gen(a), IntValue.gen(b) });
  }
  static Value out(int[][] m) {
    Value[] rows = new Value[m.length];
    for (int i = 0; i < m.length; i++) {
      Value[] row = new Value[m[i].length / 2];
      for (int j = 0; j < row.length; j++)
        row[j] = (m[i][2 * j] == 0 && m[i][2 * j + 1] == 0) ? ZERO : pair(m[i][2 * j], m[i][2 * j + 1]);
      rows[i] = new TupleValue(row);
    }
    return new TupleValue(rows);
  }
  static int md(long x) { long r = x % P; return (int) (r < 0 ? r + P : r); }

  public static Value MatMul(Value a, Value b) {
    int[][] A = mat(a), B = mat(b);
    int n = A.length, m = B[0].length / 2, l = B.length;
    int[][] R = new int[n][2 * m];
    for (int i = 0; i < n; i++) {
      long[] acc = new long[2 * m];
      for (int k = 0; k < l; k++) {
        long x = A[i][2 * k], y = A[i][2 * k + 1];
        if (x == 0 && y == 0) continue;
        int[] bk = B[k];
        for (int j = 0; j < m; j++) {
          acc[2 * j] += x * bk[2 * j] - y * bk[2 * j + 1];
          acc[2 * j + 1] += x * bk[2 * j + 1] + y * bk[2 * j];
        }
      }
      for (int j = 0; j < 2 * m; j++) R[i][j] = md(acc[j]);
    }
    return out(R);
  }
  public static Value MatAdd(Value a, Value b) {
    int[][] A = mat(a), B = mat(b);
    int[][] R = new int[A.length][A[0].length];
    for (int i = 0; i < R.length; i++)
      for (int j = 0; j < R[0].length; j++) R[i][j] = md((long) A[i][j] + B[i][j]);
    return out(R);
  }
  public static Value MatScale(Value c, Value a) {
    TupleValue t = tup(c);
    long x = num(t.elems[0]), y = num(t.elems[1]);
    int[][] A = mat(a);
    int[][] R = new int[A.length][A[0].length];
    for (int i = 0; i < R.length; i++)
      for (int j = 0; j < R[0].length / 2; j++) {
        R[i][2 * j] = md(x * A[i][2 * j] - y * A[i][2 * j + 1]);
        R[i][2 * j + 1] = md(x * A[i][2 * j + 1] + y * A[i][2 * j]);
      }
    return out(R);
  }
  public static Value MatConj(Value a) {
    int[][] A = mat(a);
    for (int[] row : A)
      for (int j = 0; j < row.length / 2; j++) row[2 * j + 1] = md(-(long) row[2 * j + 1]);
    return out(A);
  }
  public static Value MatTrans(Value a) {
    int[][] A = mat(a);
    int n = A.length, m = A[0].length / 2;
    int[][] R = new int[m][2 * n];
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) {
        R[j][2 * i] = A[i][2 * j];
        R[j][2 * i + 1] = A[i][2 * j + 1];
      }
    return out(R);
  }
  static int size(int[] d) { int r = 1; for (int x : d) r *= x; return r; }
  static int[] sel(int[] s, int[] pos) {
    int[] r = new int[pos.length];
    for (int k = 0; k < r.length; k++) r[k] = s[pos[k] - 1];
    return r;
  }
  static int[] digits(int n, int[] d) {
    int[] r = new int[d.length];
    for (int k = d.length - 1; k >= 0; k--) { r[k] = n % d[k]; n /= d[k]; }
    return r;
  }
  static int number(int[] ds, int[] d) {
    int n = 0;
    for (int k = 0; k < d.length; k++) n = n * d[k] + ds[k];
    return n;
  }
  public static Value EmbedM(Value m, Value od_, Value id_, Value os_, Value is_, Value on_, Value in_) {
    int[][] A = mat(m);
    int[] od = seq(od_), id = seq(id_), os = seq(os_), is = seq(is_), on = seq(on_), in = seq(in_);
    int n = size(od), c = size(id);
    int[] osd = sel(od, os), isd = sel(id, is), ond = sel(od, on), ind = sel(id, in);
    int[] ro = new int[n], rn = new int[n], co = new int[c], cn = new int[c];
    for (int r = 0; r < n; r++) { int[] d = digits(r, od); ro[r] = number(sel(d, os), osd); rn[r] = number(sel(d, on), ond); }
    for (int r = 0; r < c; r++) { int[] d = digits(r, id); co[r] = number(sel(d, is), isd); cn[r] = number(sel(d, in), ind); }
    int[][] R = new int[n][2 * c];
    for (int r = 0; r < n; r++)
      for (int k = 0; k < c; k++)
        if (rn[r] == cn[k]) {
          R[r][2 * k] = A[ro[r]][2 * co[k]];
          R[r][2 * k + 1] = A[ro[r]][2 * co[k] + 1];
        }
    return out(R);
  }
  public static Value PTraceM(Value m, Value od_, Value id_, Value ok_, Value ik_, Value ow_, Value iw_) {
    int[][] A = mat(m);
    int[] od = seq(od_), id = seq(id_), ok = seq(ok_), ik = seq(ik_), ow = seq(ow_), iw = seq(iw_);
    int[] okd = sel(od, ok), ikd = sel(id, ik), owd = sel(od, ow), iwd = sel(id, iw);
    long[][] S = new long[size(okd)][2 * size(ikd)];
    int n = size(od), c = size(id);
    for (int r = 0; r < n; r++) {
      int[] rd = digits(r, od);
      int kr = number(sel(rd, ok), okd), wr = number(sel(rd, ow), owd);
      for (int k = 0; k < c; k++) {
        int[] cd = digits(k, id);
        if (number(sel(cd, iw), iwd) != wr) continue;
        int kc = number(sel(cd, ik), ikd);
        S[kr][2 * kc] += A[r][2 * k];
        S[kr][2 * kc + 1] += A[r][2 * k + 1];
      }
    }
    int[][] R = new int[S.length][S[0].length];
    for (int r = 0; r < R.length; r++) for (int k = 0; k < R[0].length; k++) R[r][k] = md(S[r][k]);
    return out(R);
  }
  public static Value PermuteM(Value m, Value od_, Value id_, Value rs_, Value cs_) {
    int[][] A = mat(m);
    int[] od = seq(od_), id = seq(id_), rs = seq(rs_), cs = seq(cs_);
    int[] ad = new int[od.length + id.length];
    System.arraycopy(od, 0, ad, 0, od.length);
    System.arraycopy(id, 0, ad, od.length, id.length);
    int[] rsd = sel(ad, rs), csd = sel(ad, cs);
    int n = size(od), c = size(id);
    int[][] R = new int[n][2 * c];
    int[] all = new int[ad.length];
    for (int r = 0; r < n; r++) {
      int[] rd = digits(r, od);
      System.arraycopy(rd, 0, all, 0, rd.length);
      for (int k = 0; k < c; k++) {
        int[] cd = digits(k, id);
        System.arraycopy(cd, 0, all, rd.length, cd.length);
        int x = number(sel(all, rs), rsd), y = number(sel(all, cs), csd);
        R[r][2 * k] = A[x][2 * y];
        R[r][2 * k + 1] = A[x][2 * y + 1];
      }
    }
    return out(R);
  }
  public static Value PlaceM(Value m, Value od_, Value id_, Value ob_, Value ib_) {
    int[][] A = mat(m);
    int[] od = seq(od_), id = seq(id_), ob = seq(ob_), ib = seq(ib_);
    int n = size(od), c = size(id);
    int[] ri = new int[n], ci = new int[c];
    for (int r = 0; r < n; r++) { int[] d = digits(r, od); ri[r] = number(d, ob); for (int k = 0; k < d.length; k++) if (d[k] >= ob[k]) { ri[r] = -1; break; } }
    for (int r = 0; r < c; r++) { int[] d = digits(r, id); ci[r] = number(d, ib); for (int k = 0; k < d.length; k++) if (d[k] >= ib[k]) { ci[r] = -1; break; } }
    int[][] R = new int[n][2 * c];
    for (int r = 0; r < n; r++)
      if (ri[r] >= 0)
        for (int k = 0; k < c; k++)
          if (ci[k] >= 0) {
            R[r][2 * k] = A[ri[r]][2 * ci[k]];
            R[r][2 * k + 1] = A[ri[r]][2 * ci[k] + 1];
          }
    return out(R);
  }
  public static Value EqBelow(Value a, Value b, Value od_, Value id_, Value ob_, Value ib_) {
    int[][] A = mat(a), B = mat(b);
    int[] od = seq(od_), id = seq(id_), ob = seq(ob_), ib = seq(ib_);
    int n = A.length, c = A[0].length / 2;
    boolean[] rs = new boolean[n], cs = new boolean[c];
    for (int r = 0; r < n; r++) { int[] d = digits(r, od); for (int k = 0; k < d.length; k++) if (d[k] >= ob[k]) rs[r] = true; }
    for (int r = 0; r < c; r++) { int[] d = digits(r, id); for (int k = 0; k < d.length; k++) if (d[k] >= ib[k]) cs[r] = true; }
    for (int r = 0; r < n; r++) {
      if (rs[r]) continue;
      for (int k = 0; k < c; k++) {
        if (cs[k]) continue;
        if (A[r][2 * k] != B[r][2 * k] || A[r][2 * k + 1] != B[r][2 * k + 1]) return BoolValue.ValFalse;
      }
    }
    return BoolValue.ValTrue;
  }
  public static Value IsZeroM(Value a) {
    for (int[] row : mat(a)) for (int x : row) if (x != 0) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  static int powz(long x, long n) {
    long r = 1; x %= P;
    for (; n > 0; n >>= 1) { if ((n & 1) == 1) r = r * x % P; x = x * x % P; }
    return (int) r;
  }
  static long[] finv(long a, long b) {
    long n = powz((a * a + b * b) % P, P - 2);
    return new long[] { a * n % P, (P - b) % P * n % P };
  }
  public static Value MatInv(Value a) {
    int[][] A = mat(a);
    int n = A.length;
    long[][] W = new long[n][4 * n];
    for (int r = 0; r < n; r++) {
      for (int k = 0; k < 2 * n; k++) W[r][k] = A[r][k];
      W[r][2 * n + 2 * r] = 1;
    }
    for (int k = 0; k < n; k++) {
      int r0 = -1;
      for (int r = k; r < n; r++) if (W[r][2 * k] != 0 || W[r][2 * k + 1] != 0) { r0 = r; break; }
      if (r0 < 0) return new TupleValue(new Value[0]);
      long[] t = W[k]; W[k] = W[r0]; W[r0] = t;
      long[] pi = finv(W[k][2 * k], W[k][2 * k + 1]);
      for (int j = 0; j < 2 * n; j++) {
        long x = W[k][2 * j], y = W[k][2 * j + 1];
        W[k][2 * j] = md(pi[0] * x - pi[1] * y);
        W[k][2 * j + 1] = md(pi[0] * y + pi[1] * x);
      }
      for (int r = 0; r < n; r++) {
        if (r == k) continue;
        long fx = W[r][2 * k], fy = W[r][2 * k + 1];
        if (fx == 0 && fy == 0) continue;
        for (int j = 0; j < 2 * n; j++) {
          long x = W[k][2 * j], y = W[k][2 * j + 1];
          W[r][2 * j] = md(W[r][2 * j] - (fx * x - fy * y));
          W[r][2 * j + 1] = md(W[r][2 * j + 1] - (fx * y + fy * x));
        }
      }
    }
    int[][] R = new int[n][2 * n];
    for (int r = 0; r < n; r++) for (int k = 0; k < 2 * n; k++) R[r][k] = (int) W[r][2 * n + k];
    return out(R);
  }
  public static Value FInvP(Value a) {
    TupleValue t = tup(a);
    long[] r = finv(num(t.elems[0]), num(t.elems[1]));
    return pair((int) r[0], (int) r[1]);
  }
  public static Value FPowP(Value a, Value n_) {
    TupleValue t = tup(a);
    long x = num(t.elems[0]), y = num(t.elems[1]);
    int n = num(n_);
    if (n < 0) { long[] r = finv(x, y); x = r[0]; y = r[1]; n = -n; }
    long u = 1, v = 0;
    for (; n > 0; n >>= 1) {
      if ((n & 1) == 1) { long w = u * x - v * y; v = md(u * y + v * x); u = md(w); }
      long w = x * x - y * y; y = md(2 * x * y); x = md(w);
    }
    return pair((int) u, (int) v);
  }
  static int mix(int h, int x) {
    long a = md((long) h * 31 + x), b = md((long) h + 17L * x) + 1;
    return md(a * b + 7);
  }
  public static Value Mix(Value h, Value x) { return IntValue.gen(mix(num(h), num(x))); }
  public static Value MixS(Value h, Value s) {
    int r = num(h);
    for (int x : seq(s)) r = mix(r, x);
    return IntValue.gen(r);
  }
  static int[] hp(int h) { int x = mix(mix(h, 101), 7); return new int[] { x, mix(x, mix(h, 5)) }; }
  public static Value HashMat(Value h_, Value n_, Value m_) {
    int h = num(h_), n = num(n_), m = num(m_);
    int[][] R = new int[n][2 * m];
    for (int r = 1; r <= n; r++)
      for (int c = 1; c <= m; c++) {
        int[] p = hp(mix(mix(h, r), 1000 + c));
        R[r - 1][2 * c - 2] = p[0];
        R[r - 1][2 * c - 1] = p[1];
      }
    return out(R);
  }

  // ---- jets (truncated power series in two variables) ----
  static final int[][] MONO = new int[21][];
  static { int k = 0; for (int d = 0; d <= 5; d++) for (int b = 0; b <= d; b++) MONO[k++] = new int[] { d - b, b }; }
  static int midx(int i, int j) { int d = i + j; return d * (d + 1) / 2 + j; }
  static int ordOf(int len) { for (int d = 0; d <= 5; d++) if ((d + 1) * (d + 2) / 2 == len) return d; throw new RuntimeException("jet length " + len); }
  static int nm(int d) { return (d + 1) * (d + 2) / 2; }
  static long[][] jet(Value v) {
    TupleValue t = tup(v);
    long[][] r = new long[t.elems.length][];
    for (int k = 0; k < r.length; k++) {
      TupleValue p = tup(t.elems[k]);
      r[k] = new long[] { num(p.elems[0]), num(p.elems[1]) };
    }
    return r;
  }
  static Value outj(long[][] a) {
    Value[] r = new Value[a.length];
    for (int k = 0; k < r.length; k++) r[k] = pair((int) a[k][0], (int) a[k][1]);
    return new TupleValue(r);
  }
  static long[] fm(long[] a, long[] b) { return new long[] { md(a[0] * b[0] - a[1] * b[1]), md(a[0] * b[1] + a[1] * b[0]) }; }
  static long[] fpow(long[] a, int n) {
    if (n < 0) { a = finv(a[0], a[1]); n = -n; }
    long[] r = { 1, 0 };
    for (; n > 0; n >>= 1) { if ((n & 1) == 1) r = fm(r, a); a = fm(a, a); }
    return r;
  }
  static long[][] smul(long[][] a, long[][] b) {
    if (a.length == 0 || b.length == 0) return new long[0][];
    if (a.length == 1 || b.length == 1) return new long[][] { fm(a[0], b[0]) };
    int n = Math.min(a.length, b.length);
    long[][] r = new long[n][2];
    for (int k = 0; k < n; k++) {
      int x = MONO[k][0], y = MONO[k][1];
      for (int i = 0; i <= x; i++)
        for (int j = 0; j <= y; j++) {
          long[] u = a[midx(i, j)], v = b[midx(x - i, y - j)];
          r[k][0] += u[0] * v[0] - u[1] * v[1];
          r[k][1] += u[0] * v[1] + u[1] * v[0];
        }
      r[k][0] = md(r[k][0]); r[k][1] = md(r[k][1]);
    }
    return r;
  }
  static long[][] sapply(long[][] cs, long[][] a) {
    if (a.length == 1) return new long[][] { cs[0] };
    long[][] d = new long[a.length][];
    for (int k = 0; k < a.length; k++) d[k] = k == 0 ? new long[2] : a[k];
    long[][] r = null;
    for (int k = cs.length - 1; k >= 0; k--) {
      if (r == null) { r = new long[a.length][2]; } else { r = smul(d, r); }
      r[0] = new long[] { md(r[0][0] + cs[k][0]), md(r[0][1] + cs[k][1]) };
    }
    return r;
  }
  static long[][] sinv(long[][] a) {
    if (a.length == 0 || (a[0][0] == 0 && a[0][1] == 0)) return new long[0][];
    int d = ordOf(a.length);
    long[] g = finv(a[0][0], a[0][1]);
    long[][] cs = new long[d + 1][];
    for (int k = 1; k <= d + 1; k++) {
      long[] z = fpow(g, k);
      cs[k - 1] = k % 2 == 1 ? z : new long[] { md(-z[0]), md(-z[1]) };
    }
    return sapply(cs, a);
  }
  static long[][] spow(long[][] a, int n) {
    if (a.length == 0) return a;
    if (n < 0) { a = sinv(a); if (a.length == 0) return a; n = -n; }
    long[][] r = new long[a.length][2];
    r[0][0] = 1;
    for (; n > 0; n >>= 1) { if ((n & 1) == 1) r = smul(r, a); if (n > 1) a = smul(a, a); }
    return r;
  }
  static long zpow(long x, long n) { long r = 1; x = md(x); for (; n > 0; n >>= 1) { if ((n & 1) == 1) r = r * x % P; x = x * x % P; } return r; }
  static boolean isQR(long x) { x = md(x); return x == 0 || zpow(x, (P - 1) / 2) == 1; }
  static long zsqrt(long x) { return zpow(x, (P + 1) / 4); }
  static long zinv(long x) { return zpow(x, P - 2); }
  static boolean fsqrtDef(long[] z) { return isQR(z[0] * z[0] + z[1] * z[1]); }
  static long[] fsqrt(long[] z) {
    if (z[1] == 0) return isQR(z[0]) ? new long[] { zsqrt(z[0]), 0 } : new long[] { 0, zsqrt(-z[0]) };
    long r = zsqrt(z[0] * z[0] + z[1] * z[1]), h = zinv(2), a = md((r + z[0]) % P * h);
    long[] u;
    if (isQR(a)) { long s = zsqrt(a); u = new long[] { s, z[1] * h % P * zinv(s) % P }; }
    else { long w = zsqrt(-a); u = new long[] { z[1] * h % P * zinv(w) % P, w }; }
    return isQR(u[0]) ? u : new long[] { md(-u[0]), md(-u[1]) };
  }
  public static Value FSqrt(Value a) { long[] z = fsqrt(jet(new TupleValue(new Value[] { a }))[0]); return pair((int) z[0], (int) z[1]); }
  public static Value FSqrtDef(Value a) { return fsqrtDef(jet(new TupleValue(new Value[] { a }))[0]) ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value SMul(Value a, Value b) { return outj(smul(jet(a), jet(b))); }
  public static Value SInv(Value a) { return outj(sinv(jet(a))); }
  public static Value SPow(Value a, Value n) { return outj(spow(jet(a), num(n))); }
  public static Value SSqrt(Value v) {
    long[][] a = jet(v);
    if (a.length == 0) return v;
    boolean zero = true;
    for (long[] z : a) zero &= z[0] == 0 && z[1] == 0;
    if (zero) return v;
    if ((a[0][0] == 0 && a[0][1] == 0) || !fsqrtDef(a[0])) return outj(new long[0][]);
    long[] r = fsqrt(a[0]), r2 = fm(r, r);
    if (r2[0] != a[0][0] || r2[1] != a[0][1]) return outj(new long[0][]);
    int d = ordOf(a.length);
    long[][] cs = new long[d + 1][];
    long bin = 1;
    for (int k = 1; k <= d + 1; k++) {
      if (k > 1) bin = bin * (md(3 - 2 * (k - 1)) * zinv(2) % P) % P * zinv(k - 1) % P;
      cs[k - 1] = fm(new long[] { bin, 0 }, fm(r, fpow(a[0], 1 - k)));
    }
    return outj(sapply(cs, a));
  }
  static int[][][] jmat(Value v) {
    TupleValue t = tup(v);
    int[][][] r = new int[t.elems.length][][];
    for (int k = 0; k < r.length; k++) r[k] = mat(t.elems[k]);
    return r;
  }
  static Value outjm(int[][][] a) {
    Value[] r = new Value[a.length];
    for (int k = 0; k < r.length; k++) r[k] = out(a[k]);
    return new TupleValue(r);
  }
  static boolean zero(int[][] a) { for (int[] r : a) for (int x : r) if (x != 0) return false; return true; }
  static void addMul(long[][] acc, int[][] A, int[][] B) {
    int n = A.length, m = B[0].length / 2, l = B.length;
    for (int i = 0; i < n; i++) {
      for (int k = 0; k < l; k++) {
        long x = A[i][2 * k], y = A[i][2 * k + 1];
        if (x == 0 && y == 0) continue;
        int[] bk = B[k];
        for (int j = 0; j < m; j++) {
          acc[i][2 * j] += x * bk[2 * j] - y * bk[2 * j + 1];
          acc[i][2 * j + 1] += x * bk[2 * j + 1] + y * bk[2 * j];
        }
      }
      for (int j = 0; j < 2 * m; j++) acc[i][j] = md(acc[i][j]);
    }
  }
  public static Value JMul(Value a_, Value b_) {
    int[][][] a = jmat(a_), b = jmat(b_);
    int n = (a.length == 1 || b.length == 1) ? 1 : Math.min(a.length, b.length);
    boolean[] za = new boolean[a.length], zb = new boolean[b.length];
    for (int k = 0; k < a.length; k++) za[k] = zero(a[k]);
    for (int k = 0; k < b.length; k++) zb[k] = zero(b[k]);
    int[][][] r = new int[n][][];
    for (int k = 0; k < n; k++) {
      long[][] acc = new long[a[0].length][b[0][0].length];
      for (int i = 0; i <= MONO[k][0]; i++)
        for (int j = 0; j <= MONO[k][1]; j++) {
          int p = midx(i, j), q = midx(MONO[k][0] - i, MONO[k][1] - j);
          if (!za[p] && !zb[q]) addMul(acc, a[p], b[q]);
        }
      r[k] = new int[acc.length][acc[0].length];
      for (int i = 0; i < acc.length; i++) for (int j = 0; j < acc[0].length; j++) r[k][i][j] = (int) acc[i][j];
    }
    return outjm(r);
  }
  public static Value JComb(Value cs_, Value ms_) {
    TupleValue ct = tup(cs_);
    int[][][] ms = jmat(ms_);
    long[][][] cs = new long[ct.elems.length][][];
    for (int k = 0; k < cs.length; k++) cs[k] = jet(ct.elems[k]);
    int[][][] r = new int[cs[0].length][ms[0].length][ms[0][0].length];
    for (int k = 0; k < r.length; k++)
      for (int n = 0; n < cs.length; n++) {
        long x = cs[n][k][0], y = cs[n][k][1];
        if (x == 0 && y == 0) continue;
        for (int i = 0; i < ms[n].length; i++)
          for (int j = 0; j < ms[n][0].length / 2; j++) {
            r[k][i][2 * j] = md(r[k][i][2 * j] + x * ms[n][i][2 * j] - y * ms[n][i][2 * j + 1]);
            r[k][i][2 * j + 1] = md(r[k][i][2 * j + 1] + x * ms[n][i][2 * j + 1] + y * ms[n][i][2 * j]);
          }
      }
    return outjm(r);
  }
}
