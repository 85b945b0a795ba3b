// Harness API. Symbolically the functions are interpreted by /verif/engine; natively
// (counterexample replay) they are implemented by native.cpp from an inputs file.
#ifndef QKV_H
#define QKV_H
extern "C" {
int qkv_symbolic(void);
int qkv_bound(int quick, int thorough);
int qkv_int(const char * name, int lo, int hi);            // any value in [lo,hi], kept symbolic
int qkv_pick(const char * name, int lo, int hi);           // any value in [lo,hi], one path per value
int qkv_inti(const char * name, int idx, int lo, int hi);
int qkv_picki(const char * name, int idx, int lo, int hi);
double qkv_real(const char * name, int idx, double hint_lo, double hint_hi);   // any real (hints steer witnesses only)
void qkv_assume(int);
void qkv_check(int, const char * label);
void qkv_check_eq(double a, double b, const char * label);
void qkv_check_tight(double a, double b, const char * label);   // as check_eq, replayed to 1e-12
void qkv_check_int(int a, int b, const char * label);
void qkv_reach(const char * label);
void qkv_debug(const char *, long);
void qkv_debugf(const char *, double);
int qkv_file_read(const char * name);                      // number of tokens, -1 if never written
int qkv_tok_is(int, const char *);
double qkv_tok_real(int);
int qkv_tok_int(int);                                      // -999999 if it is not an integer
int qkv_text_read(const char *, unsigned long n);          // the tokens become the numbers in the text, whatever stands between them
void qkv_console_begin(void);                              // from here on, console output is recorded
int qkv_console_read(void);                                // stop; the tokens become the numbers printed
int qkv_console_count(const char *);                       // how often a text was printed
void qkv_fault_file(const char * name, int at, int late);   // writing this file fails from its at-th write on; at < 0: opening it
int qkv_fault_tries(const char * whole);                    // how often to try (a replay tries every size at which the device can be full; whole: the complete file)
int qkv_fault_hit(void);                                    // whether it failed
void qkv_alone(void (*f)(void *, double *), void * arg, double * out, int n);   // f's n results, as of a process in which nothing else happens afterwards: every other effect is undone
void qkv_digits(int);                                      // digits a printed real has to carry (15)
void qkv_check_digits(double a, double b, const char * label);   // as check_eq, replayed to 5 digits
}
#ifdef QKV_NATIVE
struct qkv_reg { qkv_reg(const char *, void (*)()); };
#define QKV_HARNESS(n) extern "C" void h_##n(); static qkv_reg qkv_reg_##n(#n, h_##n); extern "C" void h_##n()
#else
#define QKV_HARNESS(n) extern "C" void h_##n()
#endif
#endif
