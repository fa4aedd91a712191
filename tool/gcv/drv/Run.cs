using System;
using System.IO;
using System.Reflection;
using System.Text;

public static class BbRun {
    static byte[] Unhex(string s) { var r = new byte[s.Length / 2]; for (int i = 0; i < r.Length; i++) r[i] = Convert.ToByte(s.Substring(2 * i, 2), 16); return r; }
    static string Hex(byte[] b) { var s = new StringBuilder(); foreach (var x in b) s.Append(x.ToString("x2")); return s.ToString(); }
    static string Pascal(string n) { var s = new StringBuilder(); bool up = true; foreach (char c in n) { if (c == '_') { up = true; continue; } s.Append(up ? char.ToUpper(c) : c); up = false; } return s.ToString(); }
    static MemberInfo Mem(object o, string n) {
        var fl = BindingFlags.Instance | BindingFlags.Public | BindingFlags.NonPublic;
        string p = Pascal(n), c = char.ToLower(p[0]) + p.Substring(1);
        foreach (var k in new[] { p, n, c }) { MemberInfo m = o.GetType().GetProperty(k, fl); if (m == null) m = o.GetType().GetField(k, fl); if (m != null) return m; }
        throw new Exception("no member " + n);
    }
    static object Get(object o, string s) { if (char.IsDigit(s[0])) return ((Array)o).GetValue(int.Parse(s)); var m = Mem(o, s); return m is PropertyInfo p ? p.GetValue(o) : ((FieldInfo)m).GetValue(o); }
    static Type Ty(object o, string s) { if (char.IsDigit(s[0])) return o.GetType().GetElementType(); var m = Mem(o, s); return m is PropertyInfo p ? p.PropertyType : ((FieldInfo)m).FieldType; }
    static void Put(object o, string s, object v) { if (char.IsDigit(s[0])) { ((Array)o).SetValue(v, int.Parse(s)); return; } var m = Mem(o, s); if (m is PropertyInfo p) p.SetValue(o, v); else ((FieldInfo)m).SetValue(o, v); }
    static byte[] Blob(object x) => x is byte[] b ? b : x is Memory<byte> m ? m.ToArray() : ((ReadOnlyMemory<byte>)x).ToArray();
    public static void Main(string[] av) {
        object o = null; Type cls = null; string kind = ""; int start = 0, n = 0; byte[] buf = null;
        foreach (var ln in File.ReadAllLines(av[1])) {
            var a = ln.Split(' ');
            try {
                switch (a[0]) {
                case "CASE":
                    Console.WriteLine("CASE " + a[1]); kind = a[2]; start = int.Parse(a[4]); n = int.Parse(a[5]); buf = Unhex(a[6]); cls = null;
                    foreach (var t in typeof(BbRun).Assembly.GetTypes()) if (t.Name == a[3] && t.GetMethod("EncodeSize") != null) cls = t;
                    o = Activator.CreateInstance(cls); break;
                case "SET": {
                    var p = a[1].Split('.'); object x = o;
                    for (int i = 0; i + 1 < p.Length; i++) x = Get(x, p[i]);
                    string t = a[2], l = p[p.Length - 1]; var ty = Ty(x, l); object v;
                    if (t == "s") v = Encoding.UTF8.GetString(Unhex(a[3]));
                    else if (t == "y") { if (ty == typeof(byte[])) v = Unhex(a[3]); else v = new Memory<byte>(Unhex(a[3])); }
                    else if (t == "b") v = a[3] == "1";
                    else if (t == "f32") v = BitConverter.Int32BitsToSingle((int)uint.Parse(a[3]));
                    else if (t == "f64") v = BitConverter.Int64BitsToDouble((long)ulong.Parse(a[3]));
                    else if (t[0] == 'e') v = Enum.ToObject(ty, long.Parse(a[3]));
                    else v = Convert.ChangeType(decimal.Parse(a[3]), ty);
                    Put(x, l, v); break;
                }
                case "RUN":
                    if (kind == "encode") {
                        var b = (byte[])buf.Clone();
                        Console.WriteLine("R " + cls.GetMethod("Encode", new[] { typeof(byte[]), typeof(int) }).Invoke(o, new object[] { b, start })); Console.WriteLine("B " + Hex(b)); Console.WriteLine("E " + Hex((byte[])cls.GetMethod("Encode", Type.EmptyTypes).Invoke(o, null)));
                    } else if (kind == "decode" || kind == "mald") { var b = new byte[start + n]; Array.Copy(buf, b, start + n); Console.WriteLine("R " + cls.GetMethod("Decode", new[] { typeof(byte[]), typeof(int) }).Invoke(o, new object[] { b, start })); }
                    else if (kind == "size") { Console.WriteLine("R " + cls.GetMethod("EncodeSize").Invoke(o, null)); Console.WriteLine("S " + cls.GetProperty("Size").GetValue(null)); }
                    else { var b = new byte[start + n]; Array.Copy(buf, b, start + n); Console.WriteLine("R " + cls.GetMethod("DecodeSize", new[] { typeof(byte[]), typeof(int) }).Invoke(o, new object[] { b, start })); }
                    break;
                case "GET": {
                    object x = o; foreach (var s in a[1].Split('.')) x = Get(x, s);
                    string t = a[2], v;
                    if (t == "s") v = Hex(Encoding.UTF8.GetBytes((string)x));
                    else if (t == "y") v = Hex(Blob(x));
                    else if (t == "b") v = (bool)x ? "1" : "0";
                    else if (t == "f32") v = ((uint)BitConverter.SingleToInt32Bits((float)x)).ToString();
                    else if (t == "f64") v = ((ulong)BitConverter.DoubleToInt64Bits((double)x)).ToString();
                    else if (t[0] == 'e') v = Convert.ToInt64(x).ToString();
                    else v = x.ToString();
                    Console.WriteLine("V " + a[1] + " " + v); break;
                }
                }
            } catch (Exception e) { var c = e.InnerException ?? e; Console.WriteLine("X " + c.GetType().Name + " " + c.Message.Replace('\n', ' ')); }
        }
    }
}
