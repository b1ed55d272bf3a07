/* What configure (with --enable-debug) finds on Linux, see /repo/configure.ac. */
#define BIC_PROMPT "BIC> "
#define BUILD_LINUX 1
#define ENABLE_TREE_CHECKS 1
#define EXTRA_CPP_OPTS ""
#define HAVE_LIBREADLINE 1
#define HAVE_READLINE_HISTORY 1
#define HAVE_READLINE_HISTORY_H 1
#define HAVE_READLINE_READLINE_H 1
#define PACKAGE_STRING "bic v1.0.0"
