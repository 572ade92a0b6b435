class Probe {
    static { System.loadLibrary("whitedbDriver"); }
    static native long live(); static native void failat(long k); static native void watch(); static native long lock(long db);
    static native String fsck(long db); static native long hash(long db); static native String calls(); static native void refuse(boolean r); static native int type(long db, long rec, int f);
}
