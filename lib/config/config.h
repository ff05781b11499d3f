/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Define to 1 if using 'alloca.c'. */
/* #undef C_ALLOCA */

/* Enable handlebars debugging */
/* #undef HANDLEBARS_ENABLE_DEBUG */

/* Use check */
#define HANDLEBARS_HAVE_CHECK 1

/* Use JSON */
#define HANDLEBARS_HAVE_JSON 1

/* Use LMDB */
#define HANDLEBARS_HAVE_LMDB 1

/* Use PCRE */
#define HANDLEBARS_HAVE_PCRE 1

/* Use pthread */
#define HANDLEBARS_HAVE_PTHREAD 1

/* Use subunit */
#define HANDLEBARS_HAVE_SUBUNIT 1

/* Use valgrind */
#define HANDLEBARS_HAVE_VALGRIND 1

/* Use YAML */
#define HANDLEBARS_HAVE_YAML 1

/* Enable handlebars memory testing functions */
#define HANDLEBARS_MEMORY 1

/* Disable refcounting of handlebars values */
/* #undef HANDLEBARS_NO_REFCOUNT */

/* Define the handlebars spec version */
#define HANDLEBARS_SPEC_VERSION_STRING "4.7.7"

/* Export some symbols used for testing */
#define HANDLEBARS_TESTING_EXPORTS 1

/* Define the version integer. */
#define HANDLEBARS_VERSION_INT (0 + 0 * 100 + 1 * 10000)

/* Define the major version number. */
#define HANDLEBARS_VERSION_MAJOR 1

/* Define the minor version number. */
#define HANDLEBARS_VERSION_MINOR 0

/* Define the patch version number. */
#define HANDLEBARS_VERSION_PATCH 0

/* Define the version string. */
#define HANDLEBARS_VERSION_STRING "1.0.0"

/* Define to 1 if you have 'alloca', as a function or macro. */
#define HAVE_ALLOCA 1

/* Define to 1 if <alloca.h> works. */
#define HAVE_ALLOCA_H 1

/* Define to 1 if the compiler supports computed gotos */
#define HAVE_COMPUTED_GOTOS 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if the system has the `returns_nonnull' function attribute */
#define HAVE_FUNC_ATTRIBUTE_RETURNS_NONNULL 1

/* Define to 1 if the system has the `visibility' function attribute */
#define HAVE_FUNC_ATTRIBUTE_VISIBILITY 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the 'm' library (-lm). */
#define HAVE_LIBM 1

/* Define to 1 if you have the 'rt' library (-lrt). */
#define HAVE_LIBRT 1

/* Have PTHREAD_PRIO_INHERIT. */
#define HAVE_PTHREAD_PRIO_INHERIT 1

/* Define to 1 if the compiler supports statement expressions */
#define HAVE_STATEMENT_EXPRESSIONS 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if cpp supports the ANSI # stringizing operator. */
#define HAVE_STRINGIZE 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if the system has the `unused' variable attribute */
#define HAVE_VAR_ATTRIBUTE_UNUSED 1

/* Define to 1 if the system has the `__builtin_clz' built-in function */
#define HAVE___BUILTIN_CLZ 1

/* Define to 1 if the system has the `__builtin_clzl' built-in function */
#define HAVE___BUILTIN_CLZL 1

/* Define to 1 if the system has the `__builtin_clzll' built-in function */
#define HAVE___BUILTIN_CLZLL 1

/* Define to 1 if the system has the `__builtin_expect' built-in function */
#define HAVE___BUILTIN_EXPECT 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Define the mustache spec version */
#define MUSTACHE_SPEC_VERSION_STRING "1.1.3"

/* Define if debugging is disabled */
#define NDEBUG 1

/* Name of package */
#define PACKAGE "handlebars"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "jbboehr@gmail.com"

/* Description */
#define PACKAGE_DESCRIPTION "Library for handlebars"

/* Define to the full name of this package. */
#define PACKAGE_NAME "handlebars"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "handlebars 1.0.0"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "handlebars"

/* Define to the home page for this package. */
#define PACKAGE_URL "https://github.com/jbboehr/handlebars.c"

/* Define to the version of this package. */
#define PACKAGE_VERSION "1.0.0"

/* Define to necessary symbol if this constant uses a non-standard name on
   your system. */
/* #undef PTHREAD_CREATE_JOINABLE */

/* The number of bytes in type size_t */
#define SIZEOF_SIZE_T 8

/* The number of bytes in type unsigned */
#define SIZEOF_UNSIGNED 4

/* The number of bytes in type unsigned long */
#define SIZEOF_UNSIGNED_LONG 8

/* The number of bytes in type unsigned long long */
#define SIZEOF_UNSIGNED_LONG_LONG 8

/* If using the C implementation of alloca, define if you know the
   direction of stack growth for your system; otherwise it will be
   automatically deduced at runtime.
	STACK_DIRECTION > 0 => grows toward higher addresses
	STACK_DIRECTION < 0 => grows toward lower addresses
	STACK_DIRECTION = 0 => direction of growth unknown */
/* #undef STACK_DIRECTION */

/* Define to 1 if all of the C89 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* If the compiler supports a TLS storage class, define it to that here */
#define TLS _Thread_local

/* Version number of package */
#define VERSION "1.0.0"

/* Define to 1 if 'lex' declares 'yytext' as a 'char *' by default, not a
   'char[]'. */
#define YYTEXT_POINTER 1

/* Define to empty if 'const' does not conform to ANSI C. */
/* #undef const */

/* Define to '__inline__' or '__inline' if that's what the C compiler
   calls it, or to nothing if 'inline' is not supported under any name.  */
#ifndef __cplusplus
/* #undef inline */
#endif

/* Define as 'unsigned int' if <stddef.h> doesn't define. */
/* #undef size_t */
