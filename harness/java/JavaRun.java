// B03: histories of Java objects compared with the C library after every step.
import bw.co.roguesystems.Hdbscan;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.atomic.*;

public class JavaRun {
	static FileOutputStream ev; static String prop; static long seed; static int cur;
	static final Map<String, Long> counters = new TreeMap<>(); static final Map<String, Integer> vcount = new HashMap<>();
	static synchronized void line(String s) { try { ev.write((s.replace('\n', ' ') + "\n").getBytes(StandardCharsets.UTF_8)); } catch (IOException e) { Runtime.getRuntime().halt(3); } }
	static synchronized void count(String n, long v) { counters.merge(n, v, Long::sum); }
	static void count(String n) { count(n, 1); }
	static class Bad extends RuntimeException { final String key; Bad(String k, String w) { super(w); key = k; } }
	static void check(boolean c, String key, String w) { count("observations"); if (!c) throw new Bad(key, w); }

	/** a subclass with a field named like the library's own */
	static class Sub extends Hdbscan { long handle = 0x4242424242L; int[] labels = { 9 }; Sub(int m) { super(m); } }
	static class Model { int mp, base; int[] lab; int[] kept; double[] flat; int rows, cols; boolean cleaned; Model(int m) { mp = m; base = m; } }

	static String cut(int[] a) { String s = Arrays.toString(a); return s.length() > 300 ? s.substring(0, 300) : s; }
	static double[][] gen(Random r, StringBuilder h) {
		int z = r.nextInt(10), n = z < 2 ? 1 + r.nextInt(4) : z < 8 ? 4 + r.nextInt(37) : 20 + r.nextInt(120); if (r.nextInt(150) == 0) { n = r.nextBoolean() ? 900 : 1000 + r.nextInt(900); count("large_cases"); }
		int c = r.nextInt(10) < 8 ? 1 + r.nextInt(4) : 1 + r.nextInt(20); if (r.nextInt(80) == 0) c = 0;
		double[][] d = new double[n][]; int kind = r.nextInt(5), k = 1 + r.nextInt(5); double sc = r.nextInt(8) == 0 ? Math.pow(10, r.nextInt(41) - 20) : 1;
		for (int i = 0; i < n; i++) { d[i] = new double[c]; int g = r.nextInt(k);
			for (int j = 0; j < c; j++) d[i][j] = (kind == 0 ? r.nextInt(19) - 9 : kind == 1 ? r.nextDouble() * 100 : kind == 2 ? g * 37 + r.nextGaussian() : kind == 3 ? i / 4 * (j + 3) % 23 : i == 0 ? 0 : d[i - 1][j] + 1 + r.nextInt(6)); }
		for (double[] row : d) for (int j = 0; j < c; j++) row[j] *= sc;
		if (r.nextInt(6) == 0) for (int t = 0; t < n / 3; t++) d[r.nextInt(n)] = d[r.nextInt(n)]; // rows shared
		h.append(n).append('x').append(c).append(" kind ").append(kind); return d;
	}
	static int mp(Random r, int n) { int[] o = { 2, 2 + r.nextInt(5), 2 + r.nextInt(5), 2 + r.nextInt(Math.max(1, n - 1)), Math.max(2, n), n + 1, n + 4, r.nextInt(20) == 0 ? Integer.MAX_VALUE : 3 }; return Math.max(2, o[r.nextInt(o.length)]); }
	static void observe(Hdbscan o, Model m) {
		int[] l = o.getLabels();
		if (m.lab == null) { check(l == null, "labels", "an object that has not run has labels"); check(o.getClusterMap() == null, "map", "an object that has not run has a cluster map"); return; }
		check(Arrays.equals(l, m.lab), "labels", "labels are " + (l == null ? "null" : cut(l)) + ", the C library gives " + cut(m.lab));
		Map<Integer, List<Integer>> want = new HashMap<>(); for (int i = 0; i < l.length; i++) want.computeIfAbsent(m.lab[i], q -> new ArrayList<>()).add(i);
		HashMap<Integer, ArrayList<Integer>> got = o.getClusterMap(); check(want.equals(got), "map", "cluster map " + got + " for labels " + cut(m.lab)); count("maps");
	}
	static String refuse(Random r, Hdbscan o, Model m) {
		String w; Runnable f; int z = r.nextInt(m.lab == null || m.cleaned ? 18 : 14);
		double[][] ok = { { 1, 2 }, { 3, 4 }, { 5, 6 } }; double[][] bad = new double[1 + r.nextInt(9)][]; for (int i = 0; i < bad.length; i++) bad[i] = new double[] { i, 2 }; int at = r.nextInt(bad.length);
		Class<? extends Throwable> want = RuntimeException.class;
		switch (z) {
		case 0: w = "run(null)"; f = () -> o.run(null); break;
		case 1: w = "run(no rows)"; f = () -> o.run(new double[0][]); break;
		case 2: w = "run(no rows of 3)"; f = () -> o.run(new double[0][3]); break;
		case 3: bad[at] = null; w = "run(null row " + at + " of " + bad.length + ")"; f = () -> o.run(bad); break;
		case 4: case 5: if (bad.length == 1) { w = "run(null)"; f = () -> o.run(null); break; } bad[at] = new double[r.nextBoolean() ? 1 : 3]; w = "run(ragged row " + at + " of " + bad.length + ")"; f = () -> o.run(bad); break;
		case 6: if (bad.length == 1) { w = "run(null)"; f = () -> o.run(null); break; } bad[at] = new double[0]; w = "run(empty row " + at + " of " + bad.length + ")"; f = () -> o.run(bad); break;
		case 7: w = "reRun(1)"; f = () -> o.reRun(1); break;
		case 8: w = "reRun(0)"; f = () -> o.reRun(0); break;
		case 9: w = "reRun(-1)"; f = () -> o.reRun(-1 - r.nextInt(9)); break;
		case 10: w = "reRun(MIN)"; f = () -> o.reRun(Integer.MIN_VALUE); break;
		case 11: w = "new(1)"; f = () -> new Hdbscan(1); break;
		case 12: w = "new(0)"; f = () -> new Hdbscan(0); break;
		case 13: w = "new(negative)"; f = () -> new Hdbscan(r.nextBoolean() ? -3 : Integer.MIN_VALUE); break;
		default: if (m.cleaned && r.nextBoolean()) { w = "run of a cleaned object"; f = () -> o.run(ok); } else { w = "reRun early"; f = () -> o.reRun(3); }
		}
		try { f.run(); } catch (RuntimeException e) { count("refusals"); count("observations"); return w; } catch (Throwable t) { throw new Bad("invalid-call", w + " threw " + t); }
		throw new Bad("invalid-accepted", w + " was accepted");
	}
	static void want(Model m) { int mp2 = m.mp != m.base ? m.mp : 0; m.lab = Ref.labels(m.flat, m.rows, m.cols, m.base, mp2); }
	/** a history over own objects; jni table is installed in the calling thread */
	static void history(Random r, StringBuilder h, boolean clean) {
		int nobj = 1 + r.nextInt(3), steps = 2 + r.nextInt(10); List<Hdbscan> os = new ArrayList<>(); List<Model> ms = new ArrayList<>(); List<int[][]> held = new ArrayList<>(); List<Object[]> maps = new ArrayList<>();
		for (int i = 0; i < nobj; i++) { int p = mp(r, 20); boolean s = r.nextInt(6) == 0; os.add(s ? new Sub(p) : new Hdbscan(p)); ms.add(new Model(p)); h.append(" new").append(s ? "sub" : "").append(i).append('(').append(p).append(')'); count("objects"); }
		for (int t = 0; t < steps; t++) {
			int i = r.nextInt(os.size()), z = r.nextInt(100); Hdbscan o = os.get(i); Model m = ms.get(i); h.append("; ").append(i).append(':');
			if (!m.cleaned && (z < 42 || (m.lab == null && z < 75))) {
				h.append("run("); double[][] d = gen(r, h); h.append(')'); m.rows = d.length; m.cols = d[0].length; m.flat = new double[m.rows * m.cols]; for (int a = 0; a < m.rows; a++) System.arraycopy(d[a], 0, m.flat, a * m.cols, m.cols);
				m.base = m.mp; want(m); o.run(d); count("runs");
				for (int a = 0; a < m.rows; a++) for (int b = 0; b < m.cols; b++) check(d[a][b] == m.flat[a * m.cols + b], "data-changed", "the data set was modified");
				if (r.nextInt(3) == 0) for (double[] row : d) Arrays.fill(row, 77);
			} else if (!m.cleaned && m.lab != null && z < 62) { int p = mp(r, m.rows); h.append("reRun(").append(p).append(')'); m.mp = p; want(m); o.reRun(p); count("reruns"); }
			else if (z < 70) { h.append("clean"); o.cleanHdbscan(); if (r.nextBoolean()) o.cleanHdbscan(); m.cleaned = true; count("cleanings"); }
			else if (z < 90) h.append(refuse(r, o, m));
			else if (m.lab != null) { HashMap<Integer, ArrayList<Integer>> c = o.getClusterMap(); maps.add(new Object[] { c, c.toString() }); h.append("hold map"); if (r.nextBoolean()) { o.getClusterMap().clear(); } }
			observe(o, m); if (m.lab != null) held.add(new int[][] { o.getLabels(), m.lab.clone() });
			for (int j = 0; j < os.size(); j++) if (j != i) observe(os.get(j), ms.get(j));
			if (o instanceof Sub) check(((Sub)o).handle == 0x4242424242L && ((Sub)o).labels[0] == 9, "subclass", "a field of the subclass was overwritten");
			if (r.nextInt(60) == 0) System.gc();
			check(Ref.pins() >= 0, "pins", "negative number of acquired arrays");
		}
		for (int[][] p : held) { check(Arrays.equals(p[0], p[1]), "held-labels", "labels handed out earlier changed"); count("held_results"); }
		for (Object[] p : maps) check(p[0].toString().equals(p[1]), "held-map", "a map handed out earlier changed");
		if (clean) for (Hdbscan o : os) o.cleanHdbscan();
	}
	static void acquired() { check(Ref.pins() == 0, "pinned", Ref.pins() + " Java arrays were acquired and not released"); check(Ref.globals() == 0, "globals", Ref.globals() + " global references were not released"); check(Ref.violations() == 0, "jni-rule", Ref.violations() == 0 ? "" : Ref.violation()); }
	static void one(int k) throws Exception {
		Random r = new Random(seed * 1000003L + k * 7919L); for (int i = 0; i < 5; i++) r.nextInt(); StringBuilder h = new StringBuilder(); int mode = r.nextInt(10); count("evaluations");
		line("B " + prop + ":" + seed + ":" + k + " mode " + mode); int T = 1 + r.nextInt(3); Ref.threads(T);
		try {
			if (mode < 7) { long live = Ref.live(); history(r, h, true); acquired(); if (T == 1) check(Ref.live() == live, "leak", Ref.live() - live + " blocks are still allocated after cleaning every object"); else count("leak_unchecked"); }
			else if (mode == 7) { // several threads, each with its own objects
				int n = 2 + r.nextInt(3); Thread[] ts = new Thread[n]; Bad[] bad = new Bad[n]; Throwable[] err = new Throwable[n]; StringBuilder[] hs = new StringBuilder[n]; long s0 = r.nextLong();
				for (int i = 0; i < n; i++) { int q = i; hs[i] = new StringBuilder(); ts[i] = new Thread(() -> { Ref.install(); Ref.threads(1); try { history(new Random(s0 + q), hs[q], true); } catch (Bad b) { bad[q] = b; } catch (Throwable t) { err[q] = t; } }); }
				for (Thread t : ts) t.start(); for (Thread t : ts) t.join(); count("threaded");
				for (int i = 0; i < n; i++) { h.append(" thread").append(i).append(':').append(hs[i]); } for (int i = 0; i < n; i++) { if (bad[i] != null) throw bad[i]; if (err[i] != null) throw new Bad("exception", err[i].toString()); } acquired();
			} else { // repetition: memory held by the native side
				Ref.threads(1); double[][] d = gen(r, h); int p = 2 + r.nextInt(4), op = r.nextInt(5); h.append(" repeat ").append(op); Hdbscan o = new Hdbscan(p); o.run(d); long before = 0;
				for (int i = 0; i < 12; i++) { if (i == 4) before = Ref.live();
					switch (op) { case 0: o.run(d); break; case 1: o.reRun(p); break; case 2: { Hdbscan q = new Hdbscan(p); q.run(d); q.cleanHdbscan(); break; } case 3: for (int j = 0; j < 6; j++) refuse(r, o, new Model(2) {{ lab = new int[1]; }}); break; default: { double[][] e = gen(r, new StringBuilder()); o.run(e); o.run(d); } } }
				count("repetitions", 12); check(Ref.live() == before, "leak-" + op, Ref.live() - before + " more blocks after 8 repetitions"); o.cleanHdbscan(); acquired();
			}
		} catch (Bad b) { int v = vcount.merge(b.key, 1, Integer::sum); if (v <= 5) line("V " + b.key + "\t" + prop + ":" + seed + ":" + k + "\t" + b.getMessage() + " {" + (h.length() > 900 ? h.substring(h.length() - 900) : h) + "}"); }
		catch (RuntimeException e) { int v = vcount.merge("exception", 1, Integer::sum); StackTraceElement[] st = e.getStackTrace(); if (v <= 5) line("V exception\t" + prop + ":" + seed + ":" + k + "\ta valid call threw " + e + " at " + (st.length > 0 ? st[0] : "") + " {" + h + "}"); }
		if (h.length() > 30) line("N " + Long.toHexString(h.toString().hashCode() * 31L + k)); if (k < 3) line("S " + (h.length() > 500 ? h.substring(0, 500) : h));
	}
	public static void main(String[] a) throws Exception {
		prop = a[0]; seed = Long.parseLong(a[1]); int shard = Integer.parseInt(a[2]), shards = Integer.parseInt(a[3]), n = Integer.parseInt(a[4]);
		ev = new FileOutputStream(System.getenv("EV") != null ? System.getenv("EV") : "/dev/stderr", true);
		try { Class.forName("bw.co.roguesystems.Hdbscan"); } catch (Throwable t) { line("B " + prop + ":" + seed + ":load loading the class"); line("V load\t" + prop + ":" + seed + ":load\tthe class cannot be loaded: " + t); line("D"); Runtime.getRuntime().halt(0); }
		Ref.install(); String so = System.getenv("ONLY"), ss = System.getenv("SKIP"); int only = so == null ? -1 : Integer.parseInt(so), skip = ss == null ? -1 : Integer.parseInt(ss);
		for (int k = shard; k < n; k += shards) { if ((only >= 0 && k != only) || k <= skip) continue; cur = k; one(k); }
		for (Map.Entry<String, Long> c : counters.entrySet()) line("C " + c.getKey() + " " + c.getValue());
		line("D"); ev.close(); Runtime.getRuntime().halt(0);
	}
}
