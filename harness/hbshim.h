/* Plain C interface between the checks and the library: builds values, runs the whole pipeline and
 * reports what a caller can observe. Errors never jump across C++ frames. */
#ifndef HBSHIM_H
#define HBSHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { HV_NULL, HV_TRUE, HV_FALSE, HV_INT, HV_DBL, HV_STR, HV_ARR, HV_MAP, HV_FN };
typedef struct hv {
    int kind;
    long i;
    double d;
    const char * s;
    size_t n;               /* string length, or number of items */
    struct hv ** items;
    const char ** keys;
    int fn;                 /* HV_FN: see HF_* */
    int safe;               /* HV_STR */
} hv;

/* helpers */
enum {
    HF_NONE,
    HF_REC,      /* "#<call no>(args;hash;scope)" as a string */
    HF_ID,       /* returns its first argument (null without) */
    HF_NULL,     /* returns null */
    HF_SAFE,     /* returns its first argument as a safe string */
    HF_THROW,    /* raises an error "boom" */
    HF_BLK,      /* block: renders the block with argument 0 as context, block params [arg0, "B"], data {v: 7, +} ; without args, scope */
    HF_BLK2,     /* block: renders main block twice with the scope, then the else block */
    HF_LAMBDA,   /* returns the string "L<&>" */
    HF_LAMSCOPE, /* returns member "n" of the scope it is called with */
    HF_LAMTMPL,  /* mustache lambda: returns its first argument (the section text) twice around "-" */
    HF_LAMVAL,   /* returns the string "{{n}}" (rendered again by mustache style lambdas) */
    HF_ARR,      /* returns [1, 2] */
    HF_FALSE,    /* returns false */
    HF_MAP,      /* returns {n: "M"} */
    HF_COUNT,    /* returns the call number as an integer */
    HF_ERRARG,   /* raises an error with its first argument as the message */
    HF_ENUM_END
};

typedef struct { const char * name; const char * text; size_t len; int fn; } hpartial; /* fn != 0: callable partial; text == NULL and fn == 0: null value */
typedef struct { const char * name; int fn; } hhelper;

enum { HM_NATIVE, HM_JSON, HM_JSON_CONVERT, HM_YAML };
enum { HP_DIRECT, HP_RELOC, HP_REPRINT, HP_MODULE /* only build the module, out is its bytes with base address 0 */ };

struct handlebars_cache;
typedef struct {
    const char * tmpl; size_t tlen;
    hv * ctx; int ctxmode;
    const char * ctxtext; size_t ctxlen;   /* with ctxmode JSON/YAML: used instead of ctx if set */
    hv * data;                             /* initial @data or NULL */
    const hpartial * partials; int npartials;
    const hhelper * helpers; int nhelpers;
    const char ** known; int nknown;       /* extra known helpers */
    unsigned long flags;
    int pipe;
    int nojmp;                             /* use the return-value error interface instead of setjmp */
    int noprep;
    const char * mod; size_t modlen; int mods; /* instead of tmpl: module bytes; rendered at mods addresses in turn, the bytes moving from one to the next */
    const void * placed;                   /* instead of tmpl: a module that is executed where it is */
    struct handlebars_cache * cache;
    struct handlebars_context * parent;    /* talloc parent, or NULL */
} hreq;

typedef struct {
    int err;            /* error number, 0 if ok */
    int stage;          /* 0 parse, 1 compile, 2 execute, 3 data */
    char msg[1024];
    int line, col;
    char * out; size_t outlen, outcap;
    long calls;         /* helper calls */
} hres;

/* Parses; out is a dump of the syntax tree. print: what handlebars_ast_to_string gives; tokens: "TYPE\1text\2..." */
typedef struct { hres tree, print, tree2, print2, tokens; char shared; } hparse;
void hb_parse(const char * t, size_t n, unsigned long flags, int what, hparse * r);   /* what: 1 tree, 2 print and parse again, 4 tokens */
void hb_render(const hreq * rq, hres * rs);
void hb_res_free(hres * rs);

extern __thread long hb_calls;

struct handlebars_value;
struct handlebars_context;
void hb_build(struct handlebars_context * c, struct handlebars_value * dst, const hv * v);
void * hb_fn(int fn);

#ifdef __cplusplus
}
#endif
#endif
