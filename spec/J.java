import tlc2.value.impl.*;
import util.UniqueString;
import java.nio.file.*;
import java.util.*;

/** JSON traces for TLC; see J.tla. */
public class J {
    private static Value nul = null;
    public static synchronized Value Null() {
        if (nul == null) nul = ModelValue.make("null");
        return nul;
    }
    private static final Map<String, Value> cache = new HashMap<>();
    public static synchronized Value JEnv(final Value name) throws Exception {
        final String path = System.getenv(((StringValue) name).val.toString());
        Value v = cache.get(path);
        if (v == null) {
            v = new Parser(new String(Files.readAllBytes(Paths.get(path)), "UTF-8")).top();
            v.normalize();
            cache.put(path, v);
        }
        return v;
    }
    public static Value JEnvInt(final Value name, final Value dflt) {
        final String s = System.getenv(((StringValue) name).val.toString());
        return s == null || s.isEmpty() ? dflt : IntValue.gen(Integer.parseInt(s.trim()));
    }
    private static final class Parser {
        final String s; int p = 0;
        Parser(final String s) { this.s = s; }
        Value top() { final Value v = val(); ws(); if (p != s.length()) throw new RuntimeException("JSON: trailing text at " + p); return v; }
        void ws() { while (p < s.length() && s.charAt(p) <= ' ') p++; }
        Value val() {
            ws();
            final char c = s.charAt(p);
            if (c == '{') return obj();
            if (c == '[') return arr();
            if (c == '"') return new StringValue(str());
            final int q = p;
            while (p < s.length() && ",]} \n\r\t".indexOf(s.charAt(p)) < 0) p++;
            final String t = s.substring(q, p);
            switch (t) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "null": return Null();
                case "NaN": return dbl(Double.NaN);
                case "Infinity": return dbl(Double.POSITIVE_INFINITY);
                case "-Infinity": return dbl(Double.NEGATIVE_INFINITY);
                default:
            }
            if (t.indexOf('.') < 0 && t.indexOf('e') < 0 && t.indexOf('E') < 0) return IntValue.gen(Integer.parseInt(t));
            return dbl(Double.parseDouble(t));
        }
        Value dbl(double x) {
            final long b = Double.doubleToLongBits(x == 0.0 ? 0.0 : x);
            return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
        }
        String str() {
            p++;
            final StringBuilder b = new StringBuilder();
            for (char c; (c = s.charAt(p++)) != '"'; ) {
                if (c == '\\') {
                    c = s.charAt(p++);
                    if (c == 'n') b.append('\n'); else if (c == 't') b.append('\t');
                    else if (c == 'u') { b.append((char) Integer.parseInt(s.substring(p, p + 4), 16)); p += 4; }
                    else b.append(c);
                } else b.append(c);
            }
            return b.toString();
        }
        Value arr() {
            p++;
            final List<Value> l = new ArrayList<>();
            ws();
            if (s.charAt(p) == ']') { p++; return new TupleValue(new Value[0]); }
            while (true) {
                l.add(val());
                ws();
                if (s.charAt(p++) == ']') break;
            }
            return new TupleValue(l.toArray(new Value[0]));
        }
        Value obj() {
            p++;
            final List<UniqueString> k = new ArrayList<>();
            final List<Value> l = new ArrayList<>();
            ws();
            if (s.charAt(p) == '}') p++;
            else while (true) {
                ws();
                k.add(UniqueString.uniqueStringOf(str()));
                ws(); p++;
                l.add(val());
                ws();
                if (s.charAt(p++) == '}') break;
            }
            return new RecordValue(k.toArray(new UniqueString[0]), l.toArray(new Value[0]), false);
        }
    }
}
