// Entry points of the programs, as renamed by build.sh.
#pragma once
extern "C" {
int prog_main_netcarto_netcarto(int, char **);
int prog_main_netcarto_netcarto_legacy(int, char **);
int prog_main_reliability_reliability_links(int, char **);
int prog_main_reliability_reliability_links_gibbs(int, char **);
int prog_main_reliability_reliability_links_gibbs_sparse(int, char **);
int prog_main_reliability_reliability_links_k(int, char **);
int prog_main_reliability_reliability_reconstruct(int, char **);
int prog_main_recommender_multi_recommend_2(int, char **);
int prog_main_recommender_multi_recommend_k(int, char **);
int prog_main_recommender_multi_recommend_k_gibbs(int, char **);
int prog_main_conflict_conflict(int, char **);
int prog_main_multiblock_reliability_links_mb(int, char **);
int prog_main_multiblock_reliability_links_mb_OR(int, char **);
int prog_main_multiblock_reliability_links_mb_gibbs(int, char **);
int prog_main_multiblock_reliability_links_mb_gibbs_OR(int, char **);
int prog_main_only_deg_only_degeneration_mb(int, char **);
int prog_main_only_deg_only_degeneration_mb_gibbs(int, char **);
int prog_main_utils_bipartitemodularity(int, char **);
int prog_main_utils_bipartitemodularity_w(int, char **);
int prog_main_utils_countlinks(int, char **);
int prog_main_utils_getgiant(int, char **);
int prog_main_utils_lapspec(int, char **);
int prog_main_utils_modularbipart(int, char **);
int prog_main_utils_multinetlayout(int, char **);
int prog_main_utils_mutualinfo(int, char **);
int prog_main_utils_netcompare(int, char **);
int prog_main_utils_netlayout(int, char **);
int prog_main_utils_netprop(int, char **);
int prog_main_utils_netrandomize(int, char **);
int prog_main_utils_nodeprop(int, char **);
}
