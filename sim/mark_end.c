__attribute__((aligned(64))) char repo_data_end[64] = {1};
__attribute__((aligned(64))) char repo_bss_end[64];
