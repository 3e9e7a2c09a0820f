// B03: native side of the Java harness: the C library's results, the allocation
// accounting, and a JNI function table that counts what is acquired and released.
#include <jni.h>
#include <stdlib.h>
#include <string.h>
#include "adapter.h"
#include "wrap.h"
#include "ompctl.h"

static const struct JNINativeInterface_ *base; static struct JNINativeInterface_ mine;
static long pins, globals, violations; static char what[200];
static void bad(const char *s) { __sync_fetch_and_add(&violations, 1); strncpy(what, s, sizeof what - 1); }
static void calls(JNIEnv *e, const char *n) { if (base->ExceptionCheck(e)) bad(n); }
static thread_local void *held[256]; // elements acquired by this thread
static void got(void *p) { if (!p) return; __sync_fetch_and_add(&pins, 1); for (void *&h : held) if (!h) { h = p; return; } }
static void gave(void *p, jint mode) { for (void *&h : held) if (h == p) { if (mode != JNI_COMMIT) { h = nullptr; __sync_fetch_and_sub(&pins, 1); } return; } if (pins < 256) bad("release of array elements that were not acquired"); }
#define ARR(T, J) static J *Get##T##El(JNIEnv *e, J##Array a, jboolean *c) { calls(e, "Get" #T "ArrayElements with an exception pending"); J *p = base->Get##T##ArrayElements(e, a, c); got(p); return p; } \
	static void Rel##T##El(JNIEnv *e, J##Array a, J *p, jint m) { gave(p, m); base->Release##T##ArrayElements(e, a, p, m); }
ARR(Double, jdouble) ARR(Int, jint) ARR(Float, jfloat) ARR(Long, jlong)
static void *GetCrit(JNIEnv *e, jarray a, jboolean *c) { void *p = base->GetPrimitiveArrayCritical(e, a, c); got(p); return p; }
static void RelCrit(JNIEnv *e, jarray a, void *p, jint m) { gave(p, m); base->ReleasePrimitiveArrayCritical(e, a, p, m); }
static jobject NewG(JNIEnv *e, jobject o) { jobject g = base->NewGlobalRef(e, o); if (g) __sync_fetch_and_add(&globals, 1); return g; }
static void DelG(JNIEnv *e, jobject o) { if (o) __sync_fetch_and_sub(&globals, 1); base->DeleteGlobalRef(e, o); }
static jobject GetEl(JNIEnv *e, jobjectArray a, jsize i) { calls(e, "GetObjectArrayElement with an exception pending"); return base->GetObjectArrayElement(e, a, i); }
static jintArray NewInt(JNIEnv *e, jsize n) { calls(e, "NewIntArray with an exception pending"); if (n < 0) bad("NewIntArray of a negative length"); return base->NewIntArray(e, n); }
static void SetInt(JNIEnv *e, jintArray a, jsize b, jsize n, const jint *p) { calls(e, "SetIntArrayRegion with an exception pending"); if (!a) bad("SetIntArrayRegion of a null array"); base->SetIntArrayRegion(e, a, b, n, p); }
static jsize Len(JNIEnv *e, jarray a) { if (!a) { bad("GetArrayLength of null"); return 0; } return base->GetArrayLength(e, a); }
extern "C" {
JNIEXPORT void JNICALL Java_Ref_install(JNIEnv *e, jclass) {
	if (!base) { base = e->functions; mine = *base;
#define S(T) mine.Get##T##ArrayElements = Get##T##El; mine.Release##T##ArrayElements = Rel##T##El
	S(Double); S(Int); S(Float); S(Long); mine.GetPrimitiveArrayCritical = GetCrit; mine.ReleasePrimitiveArrayCritical = RelCrit; mine.NewGlobalRef = NewG; mine.DeleteGlobalRef = DelG; mine.GetObjectArrayElement = GetEl; mine.NewIntArray = NewInt; mine.SetIntArrayRegion = SetInt; mine.GetArrayLength = Len; }
	e->functions = &mine;
}
JNIEXPORT jlong JNICALL Java_Ref_pins(JNIEnv *, jclass) { return pins; }
JNIEXPORT jlong JNICALL Java_Ref_globals(JNIEnv *, jclass) { return globals; }
JNIEXPORT jlong JNICALL Java_Ref_violations(JNIEnv *, jclass) { return violations; }
JNIEXPORT jstring JNICALL Java_Ref_violation(JNIEnv *e, jclass) { return e->NewStringUTF(what); }
JNIEXPORT jlong JNICALL Java_Ref_live(JNIEnv *, jclass) { return wrap_live(); }
JNIEXPORT jlong JNICALL Java_Ref_total(JNIEnv *, jclass) { return wrap_total(); }
JNIEXPORT void JNICALL Java_Ref_threads(JNIEnv *, jclass, jint n) { omp_control_threads(n); }
// flat labels of a run with mp and, if mp2 > 0, a re-run with mp2
JNIEXPORT jintArray JNICALL Java_Ref_labels(JNIEnv *e, jclass, jdoubleArray a, jint rows, jint cols, jint mp, jint mp2) {
	jsize n = base->GetArrayLength(e, a); double *d = (double *)malloc(sizeof(double) * (size_t)(n + 1)); base->GetDoubleArrayRegion(e, a, 0, n, d);
	void *o = ad_new(mp); ad_run(o, d, rows, cols, 1, DT_DOUBLE); if (mp2 > 0) ad_rerun(o, mp2); free(d);
	ad_snap *s = ad_snapshot(o, 0); jint *l = (jint *)malloc(sizeof(jint) * (size_t)(rows + 1)); for (jint i = 0; i < rows; i++) l[i] = (jint)s->labels[i]; ad_snap_free(s); ad_destroy(o);
	jintArray r = base->NewIntArray(e, rows); base->SetIntArrayRegion(e, r, 0, rows, l); free(l); return r;
}
}
