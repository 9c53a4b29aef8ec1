/* Driver for gutil_version.h and gutil_macros.h */
#include "common.h"
#include <gutil_version.h>
#include <gutil_macros.h>

typedef struct { char c; gint64 first; struct { short s; int inner; } in; char arr[7]; guint8 last; } S;
typedef struct { char a; gint64 b; short c; int d; char e; } G_PACKED P;

static GArray* freed; static gpointer freed_ptr;
void g_slice_free1(gsize n, gpointer p)
{
    if (freed) { int k = n; g_array_append_val(freed, k); freed_ptr = p; }
    free(p);
}
static void begin(const char* op) { ev_begin("op"); ev_str("op", op); }

static void vf_scenario(void)
{
    while (vf_next()) {
        if (vf_is("version")) {
            const int a = vf_i(1), b = vf_i(2), c = vf_i(3);
            const guint v = GUTIL_VERSION_(a, b, c);
            begin("version"); ev_int("a", a); ev_int("b", b); ev_int("c", c); ev_int("v", v);
            /* arguments are expressions */
            ev_int("pack2", GUTIL_VERSION_(a | 0, b | 0, c | 0));
            ev_open("back", "["); ev_int(NULL, GUTIL_VERSION_MAJOR_(v | 0)); ev_int(NULL, GUTIL_VERSION_MINOR_(v | 0)); ev_int(NULL, GUTIL_VERSION_MICRO_(v | 0)); ev_close("]");
            ev_end();
        } else if (vf_is("current")) {
            begin("current");
            ev_open("current", "["); ev_int(NULL, GUTIL_VERSION_MAJOR); ev_int(NULL, GUTIL_VERSION_MINOR); ev_int(NULL, GUTIL_VERSION_MICRO); ev_close("]");
            ev_open("lib", "["); ev_int(NULL, gutil_version_major); ev_int(NULL, gutil_version_minor); ev_int(NULL, gutil_version_micro); ev_close("]");
            ev_str("str", GUTIL_VERSION_STRING);
            ev_int("word", GUTIL_VERSION); ev_int("libword", gutil_version());
#ifndef VF_UNUSABLE
            {
                static const int known[] = { GUTIL_VERSION_1_0_69, GUTIL_VERSION_1_0_70, GUTIL_VERSION_1_0_71, GUTIL_VERSION_1_0_72, GUTIL_VERSION_1_0_73, GUTIL_VERSION_1_0_74,
                    GUTIL_VERSION_1_0_75, GUTIL_VERSION_1_0_76, GUTIL_VERSION_1_0_77, GUTIL_VERSION_1_0_78, GUTIL_VERSION_1_0_79 };
                int i;
                ev_bool("usable", 1);
                ev_open("known", "["); for (i = 0; i < G_N_ELEMENTS(known); i++) ev_int(NULL, known[i]); ev_close("]");
            }
            ev_open("pp", "[");
#if GUTIL_VERSION >= GUTIL_VERSION_1_0_69
            ev_bool(NULL, 1);
#else
            ev_bool(NULL, 0);
#endif
#if GUTIL_VERSION >= GUTIL_VERSION_1_0_79
            ev_bool(NULL, 1);
#else
            ev_bool(NULL, 0);
#endif
#if GUTIL_VERSION < GUTIL_VERSION_1_0_75
            ev_bool(NULL, 1);
#else
            ev_bool(NULL, 0);
#endif
#if GUTIL_VERSION_(1,0,74) < GUTIL_VERSION_1_0_75 && GUTIL_VERSION_(1,0,76) == GUTIL_VERSION_1_0_76 && GUTIL_VERSION_1_0_77 < GUTIL_VERSION_1_0_78
            ev_bool(NULL, 1);
#else
            ev_bool(NULL, 0);
#endif
            ev_close("]");
#else
            ev_bool("usable", 0);
#endif
            ev_end();
        } else if (vf_is("align")) {
            /* align type n hex */
            const int t = vf_i(1), n = vf_i(2); const guint64 v = vf_hex64(vf_s(3)); guint64 r = 0;
#define A(T) do { T x = (T)v; T y = n == 2 ? G_ALIGN2(x | 0) : n == 4 ? G_ALIGN4(x | 0) : G_ALIGN8(x | 0); r = y; } while (0)
            switch (t) { case 0: A(guint64); break; case 1: A(gint64); break; case 2: A(guint32); break; case 3: A(gint32); break; case 4: A(guint16); break; case 5: A(gsize); break; }
            begin("align"); ev_int("n", n); ev_int("t", t); ev_u64("v", v); ev_u64("r", r); ev_end();
        } else if (vf_is("cast")) {
            S* s = g_new0(S, 3); const int k = vf_i(1);
            S* m = s + k;
            const gint64* first = &m->first;
            begin("cast");
            ev_open("offs", "["); ev_int(NULL, G_STRUCT_OFFSET(S, c)); ev_int(NULL, (guint8*)&m->first - (guint8*)m); ev_int(NULL, (guint8*)&m->in.inner - (guint8*)m);
            ev_int(NULL, (guint8*)(m->arr + 3) - (guint8*)m); ev_int(NULL, (guint8*)&m->last - (guint8*)m); ev_close("]");
            ev_open("diffs", "["); ev_int(NULL, (guint8*)&m->c - (guint8*)G_CAST(&m->c, S, c)); ev_int(NULL, (guint8*)first - (guint8*)G_CAST(first, S, first));
            ev_int(NULL, (guint8*)&m->in.inner - (guint8*)G_CAST(&m->in.inner, S, in.inner)); ev_int(NULL, (guint8*)(m->arr + 3) - (guint8*)G_CAST(m->arr + 3, S, arr[3]));
            ev_int(NULL, (guint8*)&m->last - (guint8*)G_CAST(&m->last, S, last)); ev_close("]");
            /* the address is an expression */
            G_CAST(first + 0, S, first)->first = k;
            ev_int("back", (m->first != k) + ((guint8*)G_CAST(first + 1, S, first) != (guint8*)m + sizeof(gint64)));
            ev_end();
            g_free(s);
        } else if (vf_is("packed")) {
            begin("packed"); ev_int("size", sizeof(P)); ev_int("sum", 1 + 8 + 2 + 4 + 1); ev_end();
        } else if (vf_is("free")) {
            gpointer q; int i; gsize n = 0;
            freed = g_array_new(FALSE, FALSE, sizeof(int));
            switch (vf_i(1)) {
            case 0: { S* p = malloc(sizeof(S)); q = p; n = sizeof(S); gutil_slice_free(p); } break;
            case 1: { guint8* p = malloc(1); q = p; n = 1; gutil_slice_free(p); } break;
            case 2: { P* v[2]; P** p = v; v[0] = malloc(sizeof(P)); v[1] = NULL; q = v[0]; n = sizeof(P); gutil_slice_free(*p); } break;
            case 3: { P* v[2]; P** p = v; v[1] = malloc(sizeof(P)); v[0] = NULL; q = v[1]; n = sizeof(P); gutil_slice_free(*(p + 1)); } break;
            default: q = NULL;
            }
            { GArray* f = freed; freed = NULL;
            begin("free"); ev_int("size", n); ev_open("freed", "["); for (i = 0; i < f->len; i++) ev_int(NULL, g_array_index(f, int, i)); ev_close("]"); ev_bool("same", q == freed_ptr); ev_end();
            g_array_free(f, TRUE); }
        } else { fprintf(stderr, "bad op %s\n", vf_argv[0]); _exit(98); }
    }
}

int main(int argc, char** argv) { return vf_main(argc, argv); }
