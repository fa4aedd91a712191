import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

public class Run {
    static byte[] unhex(String s) { byte[] r = new byte[s.length() / 2]; for (int i = 0; i < r.length; i++) r[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16); return r; }
    static String hex(byte[] b) { StringBuilder s = new StringBuilder(); for (byte x : b) s.append(String.format("%02x", x & 255)); return s.toString(); }
    static String camel(String n) { StringBuilder s = new StringBuilder(); boolean up = false; for (char c : n.toCharArray()) { if (c == '_') { up = s.length() > 0; continue; } s.append(up ? Character.toUpperCase(c) : c); up = false; } return s.toString(); }
    static Field field(Object o, String n) throws Exception { for (String k : new String[] {n, camel(n)}) try { Field f = o.getClass().getDeclaredField(k); f.setAccessible(true); return f; } catch (NoSuchFieldException e) { } throw new Exception("no field " + n); }
    static Object get(Object o, String s) throws Exception { return Character.isDigit(s.charAt(0)) ? Array.get(o, Integer.parseInt(s)) : field(o, s).get(o); }
    static Class<?> type(Object o, String s) throws Exception { return Character.isDigit(s.charAt(0)) ? o.getClass().getComponentType() : field(o, s).getType(); }
    static void put(Object o, String s, Object v) throws Exception { if (Character.isDigit(s.charAt(0))) Array.set(o, Integer.parseInt(s), v); else field(o, s).set(o, v); }
    public static void main(String[] av) throws Exception {
        Object o = null; Class<?> cls = null; String kind = ""; int start = 0, n = 0; byte[] buf = null;
        for (String ln : Files.readAllLines(Paths.get(av[1]))) {
            String[] a = ln.split(" ", -1);
            try {
                switch (a[0]) {
                case "CASE": System.out.println("CASE " + a[1]); kind = a[2]; cls = Class.forName(av[0] + "." + a[3]); start = Integer.parseInt(a[4]); n = Integer.parseInt(a[5]); buf = unhex(a[6]); o = cls.getDeclaredConstructor().newInstance(); break;
                case "SET": {
                    String[] p = a[1].split("\\."); Object x = o;
                    for (int i = 0; i + 1 < p.length; i++) x = get(x, p[i]);
                    String t = a[2], l = p[p.length - 1]; Class<?> ty = type(x, l); Object v;
                    if (t.equals("s")) v = new String(unhex(a[3]), StandardCharsets.UTF_8);
                    else if (t.equals("y")) v = unhex(a[3]);
                    else if (t.equals("b")) v = a[3].equals("1");
                    else if (t.equals("f32")) v = Float.intBitsToFloat((int) Long.parseLong(a[3]));
                    else if (t.equals("f64")) v = Double.longBitsToDouble(Long.parseUnsignedLong(a[3]));
                    else if (t.startsWith("e")) v = ty.getMethod("forNumber", int.class).invoke(null, (int) Long.parseLong(a[3]));
                    else { long q = new java.math.BigInteger(a[3]).longValue(); if (ty == byte.class) v = (byte) q; else if (ty == short.class) v = (short) q; else if (ty == int.class) v = (int) q; else v = q; }
                    put(x, l, v); break;
                }
                case "RUN":
                    if (kind.equals("encode")) {
                        byte[] b = buf.clone();
                        System.out.println("R " + cls.getMethod("encode", byte[].class, int.class).invoke(o, b, start)); System.out.println("B " + hex(b)); System.out.println("E " + hex((byte[]) cls.getMethod("encode").invoke(o)));
                    } else if (kind.equals("decode") || kind.equals("mald")) System.out.println("R " + cls.getMethod("decode", byte[].class, int.class).invoke(o, Arrays.copyOf(buf, start + n), start));
                    else if (kind.equals("size")) { System.out.println("R " + cls.getMethod("encodeSize").invoke(o)); System.out.println("S " + cls.getMethod("size").invoke(null)); }
                    else System.out.println("R " + cls.getMethod("decodeSize", byte[].class, int.class).invoke(o, Arrays.copyOf(buf, start + n), start));
                    break;
                case "GET": {
                    Object x = o; for (String s : a[1].split("\\.")) x = get(x, s);
                    String t = a[2], v;
                    if (t.equals("s")) v = hex(((String) x).getBytes(StandardCharsets.UTF_8));
                    else if (t.equals("y")) v = hex((byte[]) x);
                    else if (t.equals("b")) v = (Boolean) x ? "1" : "0";
                    else if (t.equals("f32")) v = "" + (Float.floatToRawIntBits((Float) x) & 0xffffffffL);
                    else if (t.equals("f64")) v = Long.toUnsignedString(Double.doubleToRawLongBits((Double) x));
                    else if (t.startsWith("e")) v = "" + x.getClass().getMethod("getNumber").invoke(x);
                    else { long q = ((Number) x).longValue(); if (t.startsWith("u")) { int w = Integer.parseInt(t.substring(1)); v = w == 64 ? Long.toUnsignedString(q) : "" + (q & ((1L << w) - 1)); } else v = "" + q; }
                    System.out.println("V " + a[1] + " " + v); break;
                }
                }
            } catch (Throwable e) { Throwable c = e.getCause() != null ? e.getCause() : e; System.out.println("X " + c.toString().replace('\n', ' ')); }
        }
    }
}
