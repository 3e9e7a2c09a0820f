public class Ref {
	public static native void install();
	public static native long pins();
	public static native long globals();
	public static native long violations();
	public static native String violation();
	public static native long live();
	public static native long total();
	public static native void threads(int n);
	public static native int[] labels(double[] flat, int rows, int cols, int mp, int mp2);
}
