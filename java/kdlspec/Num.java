package kdlspec;

import java.io.BufferedReader;
import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.tool.EvalControl;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.OpValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** The interpretation of the abstract real operators of Num.tla as IEEE doubles. */
public final class Num {
    private Num() { }

    static double d(Value x) {
        if (x instanceof RealValue) return ((RealValue) x).v;
        if (x instanceof IntValue) return ((IntValue) x).val;
        throw new RuntimeException("a real was expected, but got " + x);
    }
    static Value r(double x) { return new RealValue(x); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "\\oplus", module = "Num", warn = false)
    public static Value plus(Value a, Value b) { return r(d(a) + d(b)); }
    @TLAPlusOperator(identifier = "\\ominus", module = "Num", warn = false)
    public static Value minus(Value a, Value b) { return r(d(a) - d(b)); }
    @TLAPlusOperator(identifier = "\\otimes", module = "Num", warn = false)
    public static Value times(Value a, Value b) { return r(d(a) * d(b)); }
    @TLAPlusOperator(identifier = "\\oslash", module = "Num", warn = false)
    public static Value over(Value a, Value b) { return r(d(a) / d(b)); }
    @TLAPlusOperator(identifier = "\\preceq", module = "Num", warn = false)
    public static Value leq(Value a, Value b) { return b(d(a) <= d(b)); }
    @TLAPlusOperator(identifier = "\\prec", module = "Num", warn = false)
    public static Value lt(Value a, Value b) { return b(d(a) < d(b)); }

    @TLAPlusOperator(identifier = "Neg", module = "Num", warn = false)
    public static Value neg(Value a) { return r(-d(a)); }
    @TLAPlusOperator(identifier = "R", module = "Num", warn = false)
    public static Value real(Value a) { return r(d(a)); }
    @TLAPlusOperator(identifier = "Dec", module = "Num", warn = false)
    public static Value dec(Value a, Value e) {
        return r(Double.parseDouble(((IntValue) a).val + "e" + ((IntValue) e).val));
    }
    @TLAPlusOperator(identifier = "RAbs", module = "Num", warn = false)
    public static Value abs(Value a) { return r(Math.abs(d(a))); }
    @TLAPlusOperator(identifier = "RMax", module = "Num", warn = false)
    public static Value max(Value a, Value b) { return r(Math.max(d(a), d(b))); }
    @TLAPlusOperator(identifier = "RMin", module = "Num", warn = false)
    public static Value min(Value a, Value b) { return r(Math.min(d(a), d(b))); }
    @TLAPlusOperator(identifier = "Sqrt", module = "Num", warn = false)
    public static Value sqrt(Value a) { return r(Math.sqrt(d(a))); }
    @TLAPlusOperator(identifier = "Sin", module = "Num", warn = false)
    public static Value sin(Value a) { return r(Math.sin(d(a))); }
    @TLAPlusOperator(identifier = "Cos", module = "Num", warn = false)
    public static Value cos(Value a) { return r(Math.cos(d(a))); }
    @TLAPlusOperator(identifier = "Atan2", module = "Num", warn = false)
    public static Value atan2(Value a, Value b) { return r(Math.atan2(d(a), d(b))); }
    @TLAPlusOperator(identifier = "Acos", module = "Num", warn = false)
    public static Value acos(Value a) { return r(Math.acos(Math.max(-1, Math.min(1, d(a))))); }
    @TLAPlusOperator(identifier = "Exp", module = "Num", warn = false)
    public static Value exp(Value a) { return r(Math.exp(d(a))); }
    @TLAPlusOperator(identifier = "Log", module = "Num", warn = false)
    public static Value log(Value a) { return r(Math.log(d(a))); }
    @TLAPlusOperator(identifier = "Pow", module = "Num", warn = false)
    public static Value pow(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
    @TLAPlusOperator(identifier = "Floor", module = "Num", warn = false)
    public static Value floor(Value a) { return r(Math.floor(d(a))); }
    @TLAPlusOperator(identifier = "Pi", module = "Num", warn = false)
    public static Value pi() { return r(Math.PI); }
    @TLAPlusOperator(identifier = "IsFinite", module = "Num", warn = false)
    public static Value isFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    @TLAPlusOperator(identifier = "IsReal", module = "Num", warn = false)
    public static Value isReal(Value a) { return b(a instanceof RealValue); }

    /** The largest magnitude of a real in a structure of tuples and records. */
    static double magnitude(Value x) {
        if (x instanceof RealValue || x instanceof IntValue) { double m = Math.abs(d(x)); return m <= Double.MAX_VALUE ? m : 0; }
        if (x instanceof RecordValue) { double m = 0; for (Value v : ((RecordValue) x).values) m = Math.max(m, magnitude(v)); return m; }
        if (x instanceof BoolValue || x instanceof StringValue) return 0;
        Value t = x.toTuple();
        if (t == null) t = x.toRcd();
        if (t instanceof TupleValue) { double m = 0; for (Value v : ((TupleValue) t).elems) m = Math.max(m, magnitude(v)); return m; }
        if (t instanceof RecordValue) return magnitude(t);
        throw new RuntimeException("Close: not a structure of reals: " + x);
    }
    static boolean close(Value x, Value y, double bound) {
        boolean nx = x instanceof RealValue || x instanceof IntValue, ny = y instanceof RealValue || y instanceof IntValue;
        if (nx || ny) {
            if (!nx || !ny) return false;
            if (x instanceof IntValue && y instanceof IntValue) return ((IntValue) x).val == ((IntValue) y).val;
            double a = d(x), b = d(y);
            return a == b || Math.abs(a - b) <= bound;          // false when either is NaN
        }
        if (x instanceof BoolValue || y instanceof BoolValue)
            return x instanceof BoolValue && y instanceof BoolValue && ((BoolValue) x).val == ((BoolValue) y).val;
        if (x instanceof StringValue || y instanceof StringValue)
            return x instanceof StringValue && y instanceof StringValue && x.equals(y);
        Value tx = x.toTuple(), ty = y.toTuple();
        if (tx == null) tx = x.toRcd();
        if (ty == null) ty = y.toRcd();
        if (tx instanceof TupleValue && ty instanceof TupleValue) {
            Value[] a = ((TupleValue) tx).elems, b = ((TupleValue) ty).elems;
            if (a.length != b.length) return false;
            for (int i = 0; i < a.length; i++) if (!close(a[i], b[i], bound)) return false;
            return true;
        }
        if (tx instanceof RecordValue && ty instanceof RecordValue) {
            RecordValue a = (RecordValue) tx, b = (RecordValue) ty;
            a.normalize();
            b.normalize();
            if (a.names.length != b.names.length) return false;
            for (int i = 0; i < a.names.length; i++)
                if (!a.names[i].equals(b.names[i]) || !close(a.values[i], b.values[i], bound)) return false;
            return true;
        }
        return false;
    }
    @TLAPlusOperator(identifier = "Close", module = "Num", warn = false)
    public static Value closeTo(Value x, Value y, Value tol) {
        return b(close(x, y, d(tol) * (1 + Math.max(magnitude(x), magnitude(y)))));
    }
    @TLAPlusOperator(identifier = "AllFinite", module = "Num", warn = false)
    public static Value allFinite(Value x) { return b(finite(x)); }
    static boolean finite(Value x) {
        if (x instanceof RealValue) { double m = ((RealValue) x).v; return !Double.isNaN(m) && !Double.isInfinite(m); }
        if (x instanceof IntValue || x instanceof BoolValue || x instanceof StringValue) return true;
        if (x instanceof RecordValue) { for (Value v : ((RecordValue) x).values) if (!finite(v)) return false; return true; }
        Value t = x.toTuple();
        if (t == null) t = x.toRcd();
        if (t instanceof RecordValue) return finite(t);
        for (Value v : ((TupleValue) t).elems) if (!finite(v)) return false;
        return true;
    }
    @TLAPlusOperator(identifier = "Magnitude", module = "Num", warn = false)
    public static Value magnitudeOf(Value x) { return r(magnitude(x)); }

    @TLAPlusOperator(identifier = "FoldL", module = "Num", warn = false)
    public static Value foldL(OpValue op, Value base, Value s) {
        Value acc = base;
        for (Value e : ((TupleValue) s.toTuple()).elems) acc = op.eval(new Value[] { acc, e }, EvalControl.Clear);
        return acc;
    }
    static Value tup(Value x) {
        if (x instanceof RealValue || x instanceof IntValue || x instanceof BoolValue || x instanceof StringValue) return x;
        if (x instanceof TupleValue) {
            Value[] e = ((TupleValue) x).elems;
            for (int i = 0; i < e.length; i++) e[i] = tup(e[i]);
            return x;
        }
        if (x instanceof RecordValue) {
            Value[] e = ((RecordValue) x).values;
            for (int i = 0; i < e.length; i++) e[i] = tup(e[i]);
            return x;
        }
        Value t = x.toTuple();
        if (t == null) t = x.toRcd();
        return t == null ? x : tup(t);
    }
    @TLAPlusOperator(identifier = "Tup", module = "Num", warn = false)
    public static Value tupOf(Value x) { return tup(x); }

    static double[] reals(Value x) {
        Value[] e = ((TupleValue) x.toTuple()).elems;
        double[] o = new double[e.length];
        for (int i = 0; i < e.length; i++) o[i] = d(e[i]);
        return o;
    }
    static Value tuple(double[] x) {
        Value[] e = new Value[x.length];
        for (int i = 0; i < x.length; i++) e[i] = r(x[i]);
        return new TupleValue(e);
    }
    static double dot(double[] a, double[] b) { double s = 0; for (int i = 0; i < a.length; i++) s += a[i] * b[i]; return s; }
    static void turn(double[] a, double[] b, double c, double s) {
        for (int i = 0; i < a.length; i++) { double x = c * a[i] + s * b[i]; b[i] = c * b[i] - s * a[i]; a[i] = x; }
    }
    /** The singular values of a matrix, largest first, with its left and right singular vectors (Hestenes' method). */
    @TLAPlusOperator(identifier = "Svd", module = "Num", warn = false)
    public static Value svd(Value x) {
        Value[] rows = ((TupleValue) x.toTuple()).elems;
        int m = rows.length, n = m == 0 ? 0 : reals(rows[0]).length;
        double[][] a = new double[m][];
        for (int i = 0; i < m; i++) a[i] = reals(rows[i]);
        boolean wide = n > m;
        int k = Math.min(m, n), l = Math.max(m, n);
        double[][] w = new double[k][l], v = new double[k][k];      // by columns
        double total = 0;
        for (int i = 0; i < k; i++) {
            v[i][i] = 1;
            for (int j = 0; j < l; j++) { w[i][j] = wide ? a[i][j] : a[j][i]; total += w[i][j] * w[i][j]; }
        }
        boolean more = true;
        for (int sweep = 0; more && sweep < 60; sweep++) {
            more = false;
            for (int i = 0; i < k; i++) for (int j = i + 1; j < k; j++) {
                double p = dot(w[i], w[j]), qi = dot(w[i], w[i]), qj = dot(w[j], w[j]);
                if (qi < qj) { double[] t = w[i]; w[i] = w[j]; w[j] = t; t = v[i]; v[i] = v[j]; v[j] = t; double u = qi; qi = qj; qj = u; more = true; }
                if (qj <= 1e-34 * total || Math.abs(p) <= 1e-16 * Math.sqrt(qi * qj)) continue;
                double z = (qj - qi) / (2 * p), t = (z >= 0 ? 1 : -1) / (Math.abs(z) + Math.sqrt(1 + z * z)), c = 1 / Math.sqrt(1 + t * t);
                turn(w[i], w[j], c, -c * t);
                turn(v[i], v[j], c, -c * t);
                if (Math.abs(p) > 1e-15 * Math.sqrt(qi * qj)) more = true;
            }
        }
        Value[] us = new Value[k], vs = new Value[k];
        double[] s = new double[k];
        for (int i = 0; i < k; i++) {
            s[i] = Math.sqrt(dot(w[i], w[i]));
            for (int j = 0; j < l; j++) w[i][j] = s[i] > 0 ? w[i][j] / s[i] : 0;
            us[i] = tuple(wide ? v[i] : w[i]);
            vs[i] = tuple(wide ? w[i] : v[i]);
        }
        return new TupleValue(new Value[] { new TupleValue(us), tuple(s), new TupleValue(vs) });
    }

    static void json(Value x, StringBuilder sb) {
        if (x instanceof RealValue) {
            double m = ((RealValue) x).v;
            sb.append(Double.isNaN(m) ? "nan" : Double.isInfinite(m) ? (m < 0 ? "-inf" : "inf") : Double.toString(m));
        } else if (x instanceof IntValue) {
            sb.append(((IntValue) x).val);
        } else if (x instanceof BoolValue) {
            sb.append(((BoolValue) x).val);
        } else if (x instanceof StringValue) {
            sb.append('"').append(((StringValue) x).val.toString().replace("\\", "\\\\").replace("\"", "\\\"")).append('"');
        } else {
            Value t = x instanceof RecordValue ? x : x.toTuple();
            if (t == null) t = x.toRcd();
            if (t instanceof TupleValue) {
                sb.append('[');
                String sep = "";
                for (Value v : ((TupleValue) t).elems) { sb.append(sep); sep = ","; json(v, sb); }
                sb.append(']');
            } else if (t instanceof RecordValue) {
                sb.append('{');
                String sep = "";
                RecordValue rec = (RecordValue) t;
                for (int i = 0; i < rec.names.length; i++) {
                    sb.append(sep).append('"').append(rec.names[i]).append("\":");
                    sep = ",";
                    json(rec.values[i], sb);
                }
                sb.append('}');
            } else {
                throw new RuntimeException("no JSON for " + x);
            }
        }
    }
    private static final Map<String, java.io.PrintWriter> outputs = new java.util.HashMap<>();
    /** Appends lines (a sequence of values, as JSON) to a file, in one piece. */
    @TLAPlusOperator(identifier = "EmitLines", module = "Num", warn = false)
    public static synchronized Value emitLines(Value path, Value lines) throws IOException {
        String p = ((StringValue) path).val.toString();
        java.io.PrintWriter w = outputs.get(p);
        if (w == null) {
            w = new java.io.PrintWriter(new java.io.BufferedWriter(new java.io.FileWriter(p, true)));
            outputs.put(p, w);
            final java.io.PrintWriter ww = w;
            Runtime.getRuntime().addShutdownHook(new Thread(ww::close));
        }
        for (Value v : ((TupleValue) lines.toTuple()).elems) {
            StringBuilder sb = new StringBuilder();
            json(v, sb);
            w.println(sb);
        }
        return BoolValue.ValTrue;
    }
    /** The value of an environment variable, or the empty string. */
    @TLAPlusOperator(identifier = "Env", module = "Num", warn = false)
    public static Value env(Value name) {
        String s = System.getenv(((StringValue) name).val.toString());
        return new StringValue(UniqueString.uniqueStringOf(s == null ? "" : s));
    }
    @TLAPlusOperator(identifier = "StrLen", module = "Num", warn = false)
    public static Value strLen(Value s) { return IntValue.gen(((StringValue) s).val.toString().length()); }

    /** The events of an ndjson file.  A number with a fraction, an exponent, nan or inf is a real; any other an integer. */
    @TLAPlusOperator(identifier = "LoadTrace", module = "Num", warn = false)
    public static Value loadTrace(Value path) throws IOException {
        List<Value> out = new ArrayList<>();
        try (BufferedReader in = Files.newBufferedReader(Paths.get(((StringValue) path).val.toString()), StandardCharsets.UTF_8)) {
            for (String line; (line = in.readLine()) != null;) {
                if (!line.trim().isEmpty()) out.add(new Parser(line).top());
            }
        }
        return new TupleValue(out.toArray(new Value[0]));
    }

    static final class Parser {
        final String s;
        int i = 0;
        Parser(String s) { this.s = s; }

        RuntimeException bad(String what) { return new RuntimeException("trace: " + what + " at column " + i + " of " + s); }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value top() { Value v = value(); ws(); if (i != s.length()) throw bad("text after the value"); return v; }

        Value value() {
            ws();
            if (i >= s.length()) throw bad("no value");
            char c = s.charAt(i);
            if (c == '{') return object();
            if (c == '[') return array();
            if (c == '"') return new StringValue(UniqueString.uniqueStringOf(string()));
            int j = i;
            while (j < s.length() && ",]} \t\r\n".indexOf(s.charAt(j)) < 0) j++;
            String w = s.substring(i, j);
            i = j;
            switch (w) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "nan": case "-nan": return r(Double.NaN);
                case "inf": return r(Double.POSITIVE_INFINITY);
                case "-inf": return r(Double.NEGATIVE_INFINITY);
                default:
            }
            if (w.indexOf('.') >= 0 || w.indexOf('e') >= 0 || w.indexOf('E') >= 0) return r(Double.parseDouble(w));
            return IntValue.gen(Integer.parseInt(w));
        }

        String string() {
            StringBuilder sb = new StringBuilder();
            i++;
            while (s.charAt(i) != '"') {
                char c = s.charAt(i++);
                if (c == '\\') {
                    c = s.charAt(i++);
                    if (c == 'n') c = '\n';
                    else if (c == 't') c = '\t';
                    else if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; }
                }
                sb.append(c);
            }
            i++;
            return sb.toString();
        }

        Value array() {
            List<Value> out = new ArrayList<>();
            i++;
            ws();
            if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
            while (true) {
                out.add(value());
                ws();
                char c = s.charAt(i++);
                if (c == ']') return new TupleValue(out.toArray(new Value[0]));
                if (c != ',') throw bad("',' or ']' expected");
            }
        }

        Value object() {
            Map<String, Value> m = new LinkedHashMap<>();
            i++;
            ws();
            if (s.charAt(i) == '}') throw bad("empty record");
            while (true) {
                ws();
                String k = string();
                ws();
                if (s.charAt(i++) != ':') throw bad("':' expected");
                m.put(k, value());
                ws();
                char c = s.charAt(i++);
                if (c == '}') break;
                if (c != ',') throw bad("',' or '}' expected");
            }
            UniqueString[] n = new UniqueString[m.size()];
            Value[] v = new Value[m.size()];
            int k = 0;
            for (Map.Entry<String, Value> e : m.entrySet()) { n[k] = UniqueString.uniqueStringOf(e.getKey()); v[k++] = e.getValue(); }
            RecordValue rec = new RecordValue(n, v, false);
            rec.normalize();
            return rec;
        }
    }
}
