#pragma once
// harness API; implemented symbolically by symrt.cpp and concretely (replay) by replay.cpp
extern "C" {
  int sym_int(const char *name, int lo, int hi);
  long sym_long(const char *name, long lo, long hi);
  long sym_conc(long v);
  void sym_assume(bool c);
  void sym_assert(bool c, const char *label);
  void sym_observe(const char *name, long v);
  void sym_observe_str(const char *name, const char *p, unsigned long n);
  long sym_eom(long year, long month);   // length of a month
  void sym_end();
  int sym_mode();
  void sym_show(const char *n, long v);
  unsigned long sym_stdout(const char **p);   // everything written to std::cout so far
  void sym_main();
}
