__attribute__((weak)) void __sanitizer_cov_trace_pc(void) {}
