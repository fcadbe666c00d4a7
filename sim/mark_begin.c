__attribute__((aligned(64))) char repo_data_begin[64] = {1};
__attribute__((aligned(64))) char repo_bss_begin[64];
