package com.ibm.onnxmlir;
// Drives the Java API with random tensors against the recording model and compares what it reports.
import java.io.*;
import java.nio.*;
import java.util.*;
public class P27Driver {
  static PrintWriter out; static final TreeMap<String, Long> cnt = new TreeMap<>(); static long evs;
  static synchronized void count(String k) { cnt.merge(k, 1L, Long::sum); evs++; }
  static synchronized void bad(String key, String detail) { out.println("VIOL\t" + key + "\t" + detail.replace('\t', ' ').replace('\n', ' ')); out.flush(); }
  static final int[] SZ = {0, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1, 1};
  static class Spec { int type; long[] dims; byte[] bytes; OMTensor t; String how; }
  static Object array(Random r, int w, int kind, byte[] b) { ByteBuffer x = ByteBuffer.wrap(b).order(ByteOrder.nativeOrder()); switch (kind) { case 0: return b.clone(); case 1: { short[] a = new short[b.length / 2]; x.asShortBuffer().get(a); return a; } case 2: { int[] a = new int[b.length / 4]; x.asIntBuffer().get(a); return a; } case 3: { long[] a = new long[b.length / 8]; x.asLongBuffer().get(a); return a; } case 4: { float[] a = new float[b.length / 4]; x.asFloatBuffer().get(a); return a; } default: { double[] a = new double[b.length / 8]; x.asDoubleBuffer().get(a); return a; } } }
  static byte[] toBytes(Object a) { ByteBuffer x; if (a instanceof byte[]) return (byte[]) a; if (a instanceof short[]) { short[] s = (short[]) a; x = ByteBuffer.allocate(s.length * 2).order(ByteOrder.nativeOrder()); x.asShortBuffer().put(s); } else if (a instanceof int[]) { int[] s = (int[]) a; x = ByteBuffer.allocate(s.length * 4).order(ByteOrder.nativeOrder()); x.asIntBuffer().put(s); } else if (a instanceof long[]) { long[] s = (long[]) a; x = ByteBuffer.allocate(s.length * 8).order(ByteOrder.nativeOrder()); x.asLongBuffer().put(s); } else if (a instanceof float[]) { float[] s = (float[]) a; x = ByteBuffer.allocate(s.length * 4).order(ByteOrder.nativeOrder()); for (float f : s) x.putInt(Float.floatToRawIntBits(f)); } else { double[] s = (double[]) a; x = ByteBuffer.allocate(s.length * 8).order(ByteOrder.nativeOrder()); for (double f : s) x.putLong(Double.doubleToRawLongBits(f)); } return x.array(); }
  static final int[][] TYPES = {{3, 2, 17, 18, 19, 20}, {5, 4, 10, 16}, {6, 12}, {7, 13, 14}, {1}, {11}};
  static void set(OMTensor t, int kind, boolean bool, Object a) { switch (kind) { case 0: if (bool) t.setBoolData((byte[]) a); else t.setByteData((byte[]) a); break; case 1: t.setShortData((short[]) a); break; case 2: t.setIntData((int[]) a); break; case 3: t.setLongData((long[]) a); break; case 4: t.setFloatData((float[]) a); break; default: t.setDoubleData((double[]) a); } }
  static Object typed(OMTensor t, int type) { switch (type) { case 9: return t.getBoolData(); case 3: case 2: return t.getByteData(); case 5: case 4: return t.getShortData(); case 6: case 12: return t.getIntData(); case 7: case 13: return t.getLongData(); case 1: return t.getFloatData(); case 11: return t.getDoubleData(); default: return null; } }
  static final int[] W = {1, 2, 4, 8, 4, 8};
  static byte[] data(Random r, int n, int kind) { byte[] b = new byte[n]; if (r.nextInt(4) != 0) r.nextBytes(b); if (kind >= 4) { ByteBuffer x = ByteBuffer.wrap(b).order(ByteOrder.nativeOrder()); if (kind == 4) for (int i = 0; i + 4 <= n; i += 4) { if (Float.isNaN(x.getFloat(i))) x.putInt(i, 0x7fc00000); } else for (int i = 0; i + 8 <= n; i += 8) if (Double.isNaN(x.getDouble(i))) x.putLong(i, 0x7ff8000000000000L); } return b; }
  static Spec tensor(Random r, int limit) {
    Spec s = new Spec(); int kind = r.nextInt(6), rank = r.nextInt(8) == 0 ? 0 : 1 + r.nextInt(6); long n = 1; s.dims = new long[rank]; for (int i = 0; i < rank; i++) { long d = r.nextInt(12) == 0 ? 0 : r.nextInt(6) == 0 ? 1 : 1 + r.nextInt(9); if (n * d > limit) d = 1; s.dims[i] = d; n *= d; }
    s.bytes = data(r, (int) n * W[kind], kind); Object a = array(r, W[kind], kind, s.bytes); boolean bool = kind == 0 && r.nextInt(3) == 0; s.type = bool ? 9 : TYPES[kind][0]; s.how = "kind " + kind + (bool ? " bool" : "");
    switch (kind) { case 0: s.t = bool || r.nextBoolean() ? new OMTensor((byte[]) a, s.dims, bool) : new OMTensor((byte[]) a, s.dims); break; case 1: s.t = new OMTensor((short[]) a, s.dims); break; case 2: s.t = new OMTensor((int[]) a, s.dims); break; case 3: s.t = new OMTensor((long[]) a, s.dims); break; case 4: s.t = new OMTensor((float[]) a, s.dims); break; default: s.t = new OMTensor((double[]) a, s.dims); }
    if (r.nextInt(4) == 0) { s.bytes = data(r, (int) n * W[kind], kind); bool = kind == 0 && r.nextInt(3) == 0; s.type = bool ? 9 : TYPES[kind][0]; set(s.t, kind, bool, array(r, W[kind], kind, s.bytes)); s.how += " set"; }
    if (r.nextInt(5) == 0) { long[] d = s.dims.clone(); for (int i = d.length - 1; i > 0; i--) { int j = r.nextInt(i + 1); long x = d[i]; d[i] = d[j]; d[j] = x; } s.t.setShape(d); s.dims = d.clone(); s.how += " setShape"; }
    if (r.nextInt(4) == 0) { s.type = TYPES[kind][r.nextInt(TYPES[kind].length)]; s.t.setDataType(s.type); s.how += " setDataType"; }
    if (s.type == 2 && false) s.type = 2; if (r.nextInt(3) == 0 && a instanceof byte[] && ((byte[]) a).length > 0) { ((byte[]) a)[0] ^= 1; s.how += " caller's array changed"; }
    check(s, s.t, "constructed"); return s; }
  static String show(Spec s) { return "type " + s.type + " " + Arrays.toString(s.dims) + " (" + s.how + ")"; }
  static void check(Spec s, OMTensor t, String what) { long n = 1; for (long d : s.dims) n *= d; count("tensors_compared");
    if (t.getDataType() != s.type) bad(what + "-type", show(s) + " has type " + t.getDataType());
    if (!Arrays.equals(t.getShape(), s.dims) || t.getRank() != s.dims.length || t.getNumElems() != n || t.getBufferSize() != s.bytes.length) bad(what + "-shape", show(s) + " has " + Arrays.toString(t.getShape()) + " " + t.getNumElems() + " elements " + t.getBufferSize() + " bytes");
    ByteBuffer b = t.getData().duplicate(); b.rewind(); byte[] x = new byte[b.remaining()]; b.get(x); if (!Arrays.equals(x, s.bytes)) bad(what + "-bytes", show(s));
    for (int k = 0; k < 2; k++) { try { Object a = typed(t, s.type); if (a != null && !Arrays.equals(toBytes(a), s.bytes)) bad(what + "-getter", show(s)); } catch (Throwable e) { bad(what + "-getter", show(s) + " " + e); } }
    int other = new int[] {1, 3, 5, 6, 7, 11, 9}[(int) (evs % 7)]; boolean same = other == s.type || other == 3 && s.type == 2 || other == 5 && s.type == 4 || other == 6 && s.type == 12 || other == 7 && s.type == 13; if (!same) { try { typed(t, other); bad(what + "-wrong-getter", show(s) + " read as type " + other); } catch (NumberFormatException e) { count("wrong_getters"); } } }
  static void put(ByteArrayOutputStream o, long v) { for (int i = 0; i < 8; i++) o.write((int) (v >>> 8 * i)); }
  interface Call { Object run(); }
  static void mustFail(String what, Call c) { count("failures_checked"); try { Object o = c.run(); bad("no-exception:" + what, what + " returns " + (o == null ? "null" : "a value")); } catch (Exception e) { count("exceptions"); } catch (Throwable e) { bad("error:" + what, "" + e); } }
  static void same(String what, String got, String want) { count("texts_compared"); if (!want.equals(got)) bad("text:" + what, "'" + got + "' for '" + want + "'"); }
  static void oneCall(Random r) {
    int n = r.nextInt(12) == 0 ? 10 + r.nextInt(60) : r.nextInt(6); List<Spec> in = new ArrayList<>(); for (int i = 0; i < n; i++) in.add(tensor(r, n > 8 ? 30 : r.nextInt(30) == 0 ? 20000 : 400)); int how = r.nextInt(30); OMTensor[] arr = new OMTensor[n]; for (int i = 0; i < n; i++) arr[i] = in.get(i).t;
    if (how == 0) { mustFail("null list", () -> OMModel.mainGraph(null)); return; } if (how == 1) { mustFail("null array", () -> OMModel.mainGraph(new OMTensorList(null))); return; } if (how == 2 && n > 0) { arr[r.nextInt(n)] = null; mustFail("null tensor", () -> OMModel.mainGraph(new OMTensorList(arr))); return; }
    if (how == 3 && n > 0) { OMTensor t = arr[r.nextInt(n)]; t.setDataType(0); mustFail("undefined type", () -> OMModel.mainGraph(new OMTensorList(arr))); return; }
    if (how == 4) { OMTensor[] b = Arrays.copyOf(arr, n + 1); b[n] = new OMTensor("FAIL".getBytes(), new long[] {4}); mustFail("model failure", () -> OMModel.mainGraph(new OMTensorList(b))); return; }
    if (r.nextInt(40) == 0) System.gc();
    OMTensorList res; try { res = OMModel.mainGraph(new OMTensorList(arr)); } catch (Throwable e) { bad("call-failed", e + " for " + n + " inputs " + (n > 0 ? show(in.get(0)) : "")); return; }
    count("calls"); if (res == null) { bad("null-result", n + " inputs"); return; } OMTensor[] o = res.getOmtArray(); if (o.length != n + 1) { bad("output-count", o.length + " for " + n + " inputs"); return; }
    if (r.nextInt(40) == 0) { System.gc(); new OMTensor(new byte[100000], new long[] {100000}); }
    ByteArrayOutputStream w = new ByteArrayOutputStream(); put(w, n); for (Spec s : in) { put(w, s.type); put(w, s.dims.length); for (long d : s.dims) put(w, d); put(w, s.bytes.length); w.write(s.bytes, 0, s.bytes.length); }
    byte[] seen = o[0].getByteData(); if (o[0].getDataType() != 2) bad("output-type", "" + o[0].getDataType()); if (!Arrays.equals(seen, w.toByteArray())) { StringBuilder d = new StringBuilder(); for (Spec s : in) d.append(show(s)).append(' '); bad("input", "the model received something else than " + d); }
    for (int i = 0; i < n; i++) { Spec s = in.get(i); if (res.getOmtByIndex(i + 1) != o[i + 1]) bad("list", "getOmtByIndex"); check(s, o[i + 1], "output"); check(s, s.t, "input-after-call"); long[] st = new long[s.dims.length]; for (int d = st.length - 1; d >= 0; d--) st[d] = d == st.length - 1 ? 1 : st[d + 1] * s.dims[d + 1]; if (!s.how.contains("setShape") && !Arrays.equals(s.t.getStrides(), st)) bad("input-strides", show(s) + " " + Arrays.toString(s.t.getStrides())); if (!Arrays.equals(o[i + 1].getStrides(), st)) bad("output-strides", show(s) + " " + Arrays.toString(o[i + 1].getStrides())); }
    if (r.nextInt(10) == 0 && n > 0) { OMTensor[] again = Arrays.copyOfRange(o, 1, n + 1); OMTensorList l2 = OMModel.mainGraph(new OMTensorList(again)); if (!Arrays.equals(l2.getOmtArray()[0].getByteData(), seen)) bad("chained", "an output passed in again arrives changed"); for (int i = 0; i < n; i++) check(in.get(i), o[i + 1], "chained"); count("chained_calls"); } }
  static final String[] EPS = {"zażółć", "run_main_graph_tag", "run_main_graph", "with space %s%n"}, SIGS = {"[    { \"type\" : \"f32\" , \"dims\" : [3 , -1] , \"name\" : \"x\" } ]", "", "[ \"日本語\" , \"ż\" ]", "%s%n%d 100%\n\t\"\\"}, OSIGS = {"[ out ]", "[]", "[ \"é\" ]", "%p"};
  static void queries(Random r) {
    if (!Arrays.equals(OMModel.queryEntryPoints(), EPS)) bad("text:entry-points", Arrays.toString(OMModel.queryEntryPoints())); int i = r.nextInt(4); same("input-signature", OMModel.inputSignature(EPS[i]), SIGS[i]); same("output-signature", OMModel.outputSignature(EPS[i]), OSIGS[i]); same("input-signature", OMModel.inputSignature(), SIGS[2]); same("output-signature", OMModel.outputSignature(), OSIGS[2]); same("info", OMModel.compilationInfo(), "{ \"compiled\" : \"żółw\" }");
    if (r.nextInt(3) == 0) { mustFail("unknown entry point", () -> OMModel.inputSignature("nothing")); mustFail("unknown entry point", () -> OMModel.outputSignature("")); mustFail("null entry point", () -> OMModel.inputSignature(null)); mustFail("null entry point", () -> OMModel.outputSignature(null)); }
    same("supplementary", OMModel.inputSignature("emoji"), "[ \"\uD83D\uDE00\" ]");
    OMTensor t = new OMTensor(new int[6], new long[] {2, 3}); mustFail("wrong rank", () -> { t.setShape(new long[] {6}); return 0; }); mustFail("wrong rank", () -> { t.setStrides(new long[] {6}); return 0; }); mustFail("wrong type", () -> { t.setDataType(21 + r.nextInt(9)); return 0; }); mustFail("wrong type", () -> { t.setDataType(-1 - r.nextInt(9)); return 0; }); if (t.getDataType() != 6 || !Arrays.equals(t.getShape(), new long[] {2, 3})) bad("refused-setter", "changed the tensor"); t.setStrides(new long[] {1, 2}); if (!Arrays.equals(t.getStrides(), new long[] {1, 2})) bad("strides", "setter"); }
  public static void main(String[] a) throws Exception { out = new PrintWriter(new OutputStreamWriter(new FileOutputStream(a[0]), "UTF-8")); long seed = Long.parseLong(a[1]); int n = Integer.parseInt(a[2]), threads = Integer.parseInt(a[3]); List<Thread> ts = new ArrayList<>();
    for (int k = 0; k < threads; k++) { final int id = k; Thread t = new Thread(() -> { try { Random r = new Random(seed * 31 + id); for (int i = 0; i < n / threads; i++) { oneCall(r); if (i % 8 == 0) queries(r); } } catch (Throwable e) { StringWriter w = new StringWriter(); e.printStackTrace(new PrintWriter(w)); bad("unexpected-exception", w.toString()); } }, "worker" + k); ts.add(t); t.start(); } for (Thread t : ts) t.join();
    for (Map.Entry<String, Long> e : cnt.entrySet()) out.println("CNT\t" + e.getKey() + "\t" + e.getValue()); out.println("EV\t" + evs); out.println("END"); out.flush(); System.exit(0); } }
