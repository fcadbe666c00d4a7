SIM = "Seeded sampling, not proof. Trusts GSL, glibc stdio, gcc -O1 with AddressSanitizer, and the from-scratch reference computation. "
prop("P01", "Community partition bookkeeping is exact after any sequence of moves",
 "After any sequence of node moves, module merges, module splits, copies, restores and compressions, every node of the network belongs to exactly one module, and every module's recorded size, total strength and membership, and the recorded number of empty modules, equal what a recount from scratch gives. Working on a copy never changes the original, compression never changes which nodes are together, and releasing everything leaves no memory behind.",
 ["histories", "inputs", "schedules"], "every network (plain, weighted, bipartite projection), every interleaving of operations the annealing can produce, every sequence of random draws, every initial heap content",
 "The suite never runs the new annealing engine at all; an inconsistency needs a particular order of merge, split, restore and move to show.",
 ["src/partition.c", "src/movements.c", "src/fillpartitions.c"],
 [("linked member lists and cached sums updated incrementally", "src/partition.c ChangeModule/MergeModules/CompressPartition/CopyPartitionStruct"), ("splits", "src/movements.c SplitModuleSA/SplitModuleByComponent")],
 ["public partition structure after each operation"],
 state=[("module cache", "size, strength, first/last, empty-module counter", "src/partition.h")],
 note=SIM + "Histories of up to 40 operations on up to 14 nodes; links unique, no self-loops, positive weights.")
prop("P02", "Predicted modularity change of a move equals the actual change",
 "At every point of any history of moves, merges and splits, the modularity difference the engine predicts for a node move or a module merge equals the difference of the modularity recomputed from scratch before and after it. Asking for a prediction changes nothing, and the reported total modularity, with or without diagonal terms, always equals the recomputed one.",
 ["histories", "inputs", "schedules"], "every network, every reachable partition, every candidate move or merge, every sequence of random draws",
 "No test computes a modularity difference with the new engine; a wrong term shows only for particular module pairs or weights.",
 ["src/partition.c", "src/fillpartitions.c", "src/movements.c"],
 [("incremental differences", "src/partition.c dEChangeModule/dEMergeModules"), ("total modularity", "src/partition.c PartitionModularity")],
 ["return values of the difference and modularity functions"],
 note=SIM + "Reference: O(N^2) double sum over the generated weight matrix (or its bipartite projection).")
prop("P03", "Splitting a module by components separates exactly its own components",
 "Splitting a module by connected components reports the number of components of the network restricted to that module's nodes, moves whole components only, really splits the module whenever it is disconnected, and leaves a connected module and all other modules as they were.",
 ["inputs", "histories", "schedules"], "every network, every assignment of nodes to modules (including modules whose parts are joined only through other modules), every random draw choosing the side",
 "Never exercised by the suite; it needs a module whose parts touch only through other modules, or that has more than two parts.",
 ["src/movements.c"], [("component walk and random side", "src/movements.c SplitModuleByComponent")], ["partition after the split", "returned count"],
 note=SIM + "Up to 16 nodes, up to four successive splits.")
prop("P04", "Annealing returns a valid grouping at least as good as any it reported",
 "Annealing from any starting partition ends within a number of steps set by its cooling schedule and returns a complete, consistent grouping whose modularity is not worse than any value it reported on the way. Compressing the result keeps the grouping.",
 ["schedules", "inputs", "configurations"], "every sequence of random draws (fair and adversarial), every network including single-module and disconnected ones, every cooling parameter set",
 "The outcome depends on the whole sequence of draws; no test runs the annealing, and a lost best state or endless loop shows only on some draw sequences.",
 ["src/sannealing.c", "src/movements.c", "src/partition.c"], [("best-partition bookkeeping and restart", "src/sannealing.c GeneralSA")], ["returned partition", "progress report on the error stream"],
 note=SIM + "Up to 12 nodes. Liveness: a step budget of 20 times an upper bound derived from the cooling schedule.")
prop("P05", "netcarto reports a complete grouping with correct modularity and roles",
 "For every well-formed network file the program exits with success and reports every node exactly once, in non-empty consecutively numbered modules, with the modularity values (and, when asked for, the within-module connectivity, participation and role of each node) that follow from the network and that grouping.",
 ["inputs", "configurations", "schedules"], "every network and combination of documented options (weighted, bipartite, side, roles, files or standard streams), every random stream, every chunking of the input",
 "The suite has no test of the program; its results are random, so only properties of the result can be checked, over many seeds.",
 ["netcarto/main_netcarto.c", "src/io.c", "src/fillpartitions.c", "src/sannealing.c", "src/partition.c"], [("label hashing", "src/io.c EdgeListFileInput"), ("role table", "src/io.c TabularOutput"), ("projection", "src/fillpartitions.c ProjectBipartEdgeList")],
 ["output file or standard output of the program"],
 note=SIM + "Whole program on the simulated disk; up to 12 nodes.")
prop("P06", "The same input and seed always give the same output",
 "Running a program twice with the same input, options and seed gives the same exit status and byte-identical results, no matter what memory contained before, where blocks are placed, how the input arrives in pieces, what the clock, the process number and the environment are, or whether an earlier run crashed half-way and left partial output behind. A library call, too, depends on its arguments and the state of the random source it is given, never on calls made before it in the same process.",
 ["inputs", "crash_points", "fault_sequences", "schedules"], "every program, input, seed, prior heap and stack content, allocation layout, read chunking, clock, crash point of an earlier run and history of earlier calls",
 "A test run sees one heap and one chunking; dependence on uninitialised memory or stale files is invisible until the environment differs.",
 ["netcarto/main_netcarto.c", "src/io.c", "src/fillpartitions.c", "src/missing.c", "src/recommend.c", "src/multiblock.c", "src/graph.c"], [("explicit seeding and initialisation", "program mains; allocation sites in src/")],
 ["output files, standard streams and exit status of two simulated runs"],
 note=SIM + "Each run is compared with 1-3 runs under another heap fill, layout, stack fill, clock and chunking, some after a crash. netcarto in half of the runs, any other program in an eighth; in the rest a library scenario of any other property is run, then others, then the first again in the same process with the same decisions on other memory, and everything it observed (results, printed text, files, number of draws) is compared.")
prop("P07", "netcarto never reports success after an I/O failure or on malformed input",
 "When a file cannot be opened, read, written or closed completely, when memory runs out, or when the network or partition file is malformed, netcarto ends with a failure instead of a success with missing, cut or wrong results. After the failure is gone, a new run on the same files gives the complete correct result.",
 ["fault_sequences", "crash_points", "inputs"], "every byte position of a read error, write error or full disk, every failing open, close or allocation, every crash point, every malformed line",
 "Nothing in the suite injects I/O failures or malformed input.",
 ["netcarto/main_netcarto.c", "src/io.c"], [("status returns checked by the program", "netcarto/main_netcarto.c main"), ("reader errors", "src/io.c EdgeListFileInput/AssignNodesToModulesFromFile")],
 ["exit status and output files"],
 note=SIM + "One fault per run at a random position; success must come with the fault-free result.")
prop("P08", "A saved partition reads back as the same grouping",
 "A grouping that was written to a file is read back as the same grouping of the same nodes, whatever the node names, the order of the modules, the presence of header lines and the chunking of the file, and the modularity reported for it is the one reported when it was found.",
 ["inputs", "schedules", "configurations"], "every network, grouping, set of names and read chunking",
 "No test writes and re-reads a partition.",
 ["src/io.c", "netcarto/main_netcarto.c", "src/modules.c"], [("partition writer", "src/io.c ClusteringOutput"), ("partition reader", "src/io.c AssignNodesToModulesFromFile"), ("legacy writer/reader", "src/modules.c FPrintPartition/FCreatePartition")],
 ["report files and re-read results"],
 note=SIM + "The saved file is used as written, without header, or with its module lines reordered.")
prop("P09", "Groups of networks stay consistent under any history of operations",
 "After any history of creating, filling, moving, merging, compressing, splitting, copying, mapping and emptying groups of a network, every node is in exactly one group, and the size, the links inside and outside and the weights recorded for every group equal a recount, in the original and in every copy. Queries about groups (modularity, roles, participation, relative degree and strength, comparison of groupings, induced networks, links between groups) equal their definitions on the current grouping, and operations documented as leaving the network or the grouping alone do so.",
 ["histories", "inputs", "schedules"], "every network (weighted or not, with isolated nodes), every order of operations, every memory content",
 "The suite groups a few fixed networks; a stale count shows only after a certain order of operations.",
 ["src/modules.c"], [("group counts kept by each operation", "src/modules.c AddNodeToGroup/RemoveNodeFromGroup/MoveNode/MergeGroups/CompressPart/CopyPartition/MapPartToNet"), ("queries", "src/modules.c Modularity, CatalogRoleIdent, MutualInformation, BuildNetFromGroup and others")],
 ["group lists and counts after each operation", "query results"],
 state=[("group counts", "size, totlinks, inlinks and weights of each group", "struct group"), ("node marks", "inGroup of each node", "struct node_gra")],
 note=SIM + "Networks of up to 10 nodes, histories of up to 25 operations.")
prop("P10", "Legacy annealing returns the best grouping it reached and always ends",
 "Annealing of modularity with the legacy functions ends for every network and every starting grouping, and returns a complete, consistent grouping that is not worse than any it reported, uses no more groups than allowed, and leaves the network as it was; the running modularity it reports is that of the current grouping. Splitting a group gives two sides that cover it exactly, and the files of netcarto_legacy (modules, roles, node properties, backup) agree with the network and with each other.",
 ["schedules", "inputs", "configurations"], "every network, initial placement, cooling schedule, set of switches and sequence of random draws",
 "The suite checks two fixed networks with one seed; the outcome depends on the draws.",
 ["src/modules.c", "netcarto/main_netcarto_legacy.c", "src/graph.c"], [("annealing loop, merges, splits, best partition", "src/modules.c SACommunityIdent, SAGroupSplit"), ("program", "netcarto/main_netcarto_legacy.c main")],
 ["returned grouping, progress report, backup file", "output files of netcarto_legacy"], note=SIM + "Networks of up to 10 nodes (12 for splits); step budgets 20 times an upper bound of the cooling schedule.")
SAMP = "Networks of up to 24 nodes (histories) or all groupings of up to 4 nodes or 3+3 nodes (exact posteriors). "
prop("P11", "Metropolis samplers keep energy, link counts and groups exact",
 "After every Monte Carlo step of the link-reliability, multi-block, degeneracy, several-state and recommender samplers, the tracked energy equals the energy of the current grouping computed from scratch, the cached link counts and number of groups equal a recount, and every node is in exactly one group. Rejected moves leave no trace, and everything that was allocated is released.",
 ["histories", "schedules", "inputs"], "every network or rating set, every starting grouping, every sequence of random draws (fair and adversarial), every table size and initial memory content",
 "The suite never runs a sampler; a wrong update shows only after a certain move (within, into or out of an empty group) and is then hidden in averages.",
 ["src/missing.c", "src/multiblock.c", "src/only_deg.c", "src/recommend.c"],
 [("incremental energy and cache updates, undo on rejection", "src/missing.c LinkScoreMCStep/LSMCStepKState; src/multiblock.c LSMCStepMB/ORLSMCStepMB; src/only_deg.c LSMCStepMB_OD; src/recommend.c MCStep2State/MCStepKState"), ("energies", "PartitionH, PartitionHMB, H2State, HKState, LSHKState")],
 ["energy, cache and grouping arguments after each step"],
 state=[("G2G/N2G/ng caches", "links between groups, from nodes to groups, non-empty groups", "arguments of the step functions")],
 note=SIM + SAMP)
prop("P12", "Gibbs samplers keep energy, link counts and groups exact",
 "After every sweep of the Gibbs samplers (plain, multi-block, degeneracy, sparse and rating versions) the tracked energy equals that of the current grouping computed from scratch, the cached link counts equal a recount, and every node is in exactly one group. This holds for every random draw, including the smallest and largest possible, and never depends on uninitialised memory.",
 ["histories", "schedules", "inputs"], "every network or rating set, every starting grouping, every sequence of random draws including 0 and the largest below 1, every initial memory content",
 "The suite never runs a sampler; the failing draws have probabilities near 2^-32 or need a particular grouping.",
 ["src/missing.c", "src/multiblock.c", "src/only_deg.c", "src/sparse_missing.c", "src/recommend.c"],
 [("sweep over nodes, shortlist of groups, choice of the destination", "src/missing.c GibbsLinkScoreStep and its variants; src/sparse_missing.c SparseGibbsLinkScoreStep; src/recommend.c GibbsStepKState")],
 ["energy, cache and grouping arguments after each sweep"], note=SIM + SAMP)
prop("P13", "Samplers leave the exact posterior distribution unchanged",
 "If groupings are drawn from the exact posterior of the model (weight exp(-energy), every grouping counted once), then after any number of sampler steps they are still distributed like that. This holds for every sampler of the library, for links and for ratings.",
 ["schedules", "inputs", "configurations"], "every network or rating set and every parameter value, over the distribution of random draws",
 "A bias is a property of a distribution over runs; no single run and no unit test can show it.",
 ["src/missing.c", "src/multiblock.c", "src/only_deg.c", "src/sparse_missing.c", "src/recommend.c"],
 [("acceptance rule and labelled-group correction", "step functions of all samplers")], ["grouping after the steps"],
 note=SIM + SAMP + "A deviation counts only if 1,500 chains give p<1e-4 and 15,000 fresh chains p<1e-10.")
prop("P14", "Link scores and rating predictions are posterior averages",
 "The reported scores are averages, over sampled groupings, of the predicted probability that the model assigns to the link or rating given the observed data, and averaged over independent inferences they converge to the exact posterior value. They lie strictly between 0 and 1, are the same for both directions of a link, and the probabilities of all values of a rating sum to one.",
 ["schedules", "inputs", "configurations"], "every network, rating set, query set, number of samples, decorrelation step, random stream and prior memory content",
 "Scores are random numbers; only the whole distribution or a match with some grouping can be judged.",
 ["src/missing.c", "src/multiblock.c", "src/only_deg.c", "src/sparse_missing.c", "src/recommend.c", "src/conflict.c"],
 [("thermalisation, sampling loop, normalisation", "src/missing.c LinkScore and its variants; src/recommend.c MultiLinkScore*; src/conflict.c AllLinkScore2State")], ["returned scores"],
 note=SIM + SAMP + "One known finding: chains that never reject on at most 2+2 nodes alternate.")
prop("P21", "Sampled groupings, network scores and reconstructions are what they claim",
 "Groupings sampled for a network are complete and independent of each other and come up in proportion to their posterior probability; the score of a network given an observation is the ratio of posterior averages (exactly 1 for the observation itself). The network implied by the link scores has exactly the pairs that score above one half; reconstructing a network keeps its nodes, simplicity and number of links, leaves the observation untouched and releases all memory.",
 ["schedules", "inputs", "histories"], "every network (also complete and empty ones), prior strength, number of samples, thinning, sequence of random draws",
 "Averages over a random walk: a wrong weight shows only statistically, and a leaked table or an unchosen exchange only on some networks.",
 ["src/missing.c"], [("sampling of partitions", "src/missing.c PartitionSampling"), ("scores of whole networks", "src/missing.c NetworkScore/NetFromSScores"), ("reconstruction", "src/missing.c NetReconstruct")],
 ["sampled groupings and progress report", "score of a network", "reconstructed network"], note=SIM + "Up to 20 nodes; exact posterior over all groupings up to 5 nodes, two 7-sigma stages.")
prop("P22", "A held-out rating never influences its own prediction",
 "Predictions for the queried pairs are the same whatever ratings those pairs have in the input, or whether they have any. Predicting leaves the ratings and the queries as they were, queries name unseen users or items without harm, and the unobserved pairs listed are exactly those without a rating.",
 ["inputs", "histories", "schedules"], "every rating set, every set of queries (observed, unobserved, repeated, unseen names), every random stream",
 "Leakage of a single rating changes scores only a little; it is visible only by comparing two runs that differ in that rating alone.",
 ["src/recommend.c", "src/bipartite.c", "src/graph.c"],
 [("queried ratings removed from a copy; queries remapped", "src/recommend.c MultiLinkScore2State/MultiLinkScoreKState/GibbsMultiLinkScoreKState"), ("query reader, unobserved set", "src/recommend.c ReadQueries/BuildUnobservedSet/RemoveRatings")],
 ["scores of paired runs", "ratings network after the run"], note=SIM + "Up to 7+7 nodes, 4 queries.")
prop("P23", "Every inference ends, on every network",
 "Estimating the decorrelation time, thermalising and sampling end after a bounded number of steps on every network or rating set with at least two nodes, including regular, empty, complete and single-user ones, and release all memory.",
 ["schedules", "inputs", "configurations"], "every network or rating set, every verbosity, fair random draws",
 "The loops stop on statistical criteria; whether they are ever met depends on the network and the draws.",
 ["src/missing.c", "src/multiblock.c", "src/only_deg.c", "src/sparse_missing.c", "src/recommend.c", "src/conflict.c", "src/tools.c"],
 [("decay estimate and equilibration loops", "GetDecorrelationStep*, Thermalize* functions, src/missing.c CalculateDecay")], ["return of the inference within a step budget"],
 note=SIM + "Step budget of 4-6e8 basic blocks, over 20 times what the largest runs need.")
prop("P15", "Randomizing a network keeps every degree, and picks switches evenly",
 "Randomizing a network, plain or bipartite, keeps its nodes, their names and their degrees, never makes a repeated or self link, and always ends; a switch is chosen evenly among all possible ones. The program netrandomize writes such a network for every seed.",
 ["schedules", "inputs", "histories"], "every network (also those with few or no possible switches), number of switches and sequence of random draws",
 "Each result is random; a lost or doubled link, an endless loop or an uneven choice shows only for some draws.",
 ["src/graph.c", "src/bipartite.c", "utils/main_netrandomize.c"],
 [("link switching", "src/graph.c RandomizeSymmetricNetwork; src/bipartite.c RandomizeBipart"), ("program", "utils/main_netrandomize.c")],
 ["network after the randomization", "output file of the program"], note=SIM + "Up to 12 nodes; distribution of one switch against all legal switches, two 7-sigma stages.")
prop("P16", "Removing and adding random links touches exactly what it should",
 "Adding or removing random links changes the number of links by exactly the number asked for (or as many as possible), never repeats a link or links a node to itself, and leaves nodes and all other links and weights alone, in directed and undirected networks. Every eligible link or pair is equally likely to be chosen.",
 ["histories", "schedules", "inputs"], "every network, every history of additions and removals, every sequence of random draws",
 "Which links are chosen is random; a bias or an off-by-one at the edge of the list shows only over many draws.",
 ["src/graph.c"], [("random choice of links and pairs", "src/graph.c RemoveRandomLinks/AddRandomLinks")], ["network after each operation"], note=SIM + "Up to 10 nodes.")
prop("P17", "Network models generate what they promise, with the promised frequencies",
 "Random, preferential-attachment, block, Girvan-Newman and modular bipartite models generate networks with the number of nodes, links and groups asked for, without repeated or self links, for every draw; link, colour and team-size frequencies follow the given probabilities. The program modularbipart writes the network its options describe.",
 ["schedules", "configurations"], "every parameter set, every sequence of random draws including the smallest and largest possible",
 "Models are random by nature: structure must hold for every draw, frequencies only over many.",
 ["src/models.c", "src/bipartite.c", "utils/main_modularbipart.c"],
 [("generators", "src/models.c ERGraph/PAGraph/UndirectedBlockGraph and others; src/bipartite.c BuildModularBipartNetwork")],
 ["generated networks", "output of the program"], note=SIM + "Up to 14 nodes; frequencies with fair draws only.")
prop("P18", "Networks stay consistent under any history of changes and copies",
 "After any history of adding and removing nodes and links, renumbering, copying, adding up, inverting and projecting, a network has exactly the nodes, links, weights and labels that history implies, links lead to the nodes they name, and node and link counts, degrees, strengths and bipartite roles agree with a recount. Copies are independent, queries leave the network alone, and removing a network releases everything.",
 ["histories", "inputs"], "every history of operations on plain and bipartite networks, every memory content and layout",
 "A link to a removed node or a stale number shows only in a later operation; tests never remove a node.",
 ["src/graph.c", "src/bipartite.c"], [("linked node and adjacency lists with cross references", "src/graph.c AddAdjacency/RemoveLink/RemoveNode/CopyNetwork/RenumberNodes"), ("two networks sharing links", "src/bipartite.c CreateBipart/ProjectBipart/InvertBipart")],
 ["whole network structure after each operation"],
 state=[("adjacency entries", "label, number and reference of the neighbour", "struct node_lis")], note=SIM + "Up to 12 nodes, histories of up to 40 operations.")
prop("P24", "Containers, tables and file helpers are exact under any use",
 "Stacks and queues return what was put in, in their order, and the search tree finds, walks and removes its keys and stays balanced, under any interleaving of operations; precomputed tables agree with direct computation inside, at and beyond their size; statistics, random geometric numbers, matrices and line counts agree with their definitions for every way the file is delivered. Everything allocated is released.",
 ["histories", "inputs", "schedules"], "every sequence of container operations, table size, index, data set and file chunking",
 "Errors sit at the edge of a table or buffer, or after a certain sequence of operations.",
 ["src/datastruct.c", "src/tools.c", "lib/search.c"], [("linked containers", "src/datastruct.c"), ("search tree behind label dictionaries and edge lists", "lib/search.c tsearch/tfind/tdelete/twalk/tdestroy"), ("tables with fallback beyond their size", "src/tools.c FastLog*/InitializeFastLog*"), ("buffered line count", "src/tools.c CountLinesInFile")],
 ["return values and structure after each operation"], note=SIM + "Histories of up to 80 operations (700 on the tree), tables of up to 60 entries.")
prop("P30", "Measures describe the current network, whatever was done to it before",
 "Whenever a structural measure (distances, betweenness, clustering, connected sets, degree correlations, overlaps, matrices and spectra) is taken during a history of changes and other measures, it equals its definition on the network as it is then, leaves the network unchanged, writes nothing unasked and keeps no memory. Components returned are complete networks of their own.",
 ["histories", "inputs"], "every history of changes and measures, every leftover traversal mark and memory content",
 "Measures share marks and counters stored in the nodes, so one can spoil the next; the suite takes one measure of one fixed network per process.",
 ["src/graph.c", "src/matrix.c"], [("traversal marks and distance lists in the nodes", "src/graph.c ClusterizeNetwork..., AveragePathLength, CalculateNodeBetweenness, GetLargest*ConnectedSet, IsGraphConnected")],
 ["return values; network before and after"],
 state=[("state/ivar/dvar fields", "traversal marks shared by all measures", "struct node_gra")],
 note=SIM + "Up to 30 nodes, histories of up to 24 steps. With the network given, a measure is a pure function: what is simulated is the history before it, the marks it left and the memory.")
prop("P19", "What is read from a file is exactly what the file says",
 "Reading a network, bipartite network or partition gives exactly the nodes, links, weights and groups of its records, however the file reaches the program in pieces; a network file with a broken line, or that cannot be read to its end, gives no network, never a part of it. Link lists, degree lists, Pajek files and partitions written describe what is in memory, and read back to the same. Reading always ends and keeps no memory beyond its result.",
 ["inputs", "fault_sequences"], "every file content, switch (weights, loops, adding up repeated links, directions), delivery in pieces, and point where reading fails or the file is cut",
 "The suite reads whole, correct files; a record that straddles a buffer, a read error half way or a cut file is never met.",
 ["src/graph.c", "src/bipartite.c", "src/modules.c"],
 [("readers", "src/graph.c FBuildNetwork; src/bipartite.c FBuildNetworkBipart; src/modules.c FCreatePartition/FReadPartition"), ("writers", "src/graph.c FPrintNetAdjacencyList/FPrintPajekFile/FPrintDegrees; src/modules.c FPrintPartition")],
 ["network or partition read; text written"], note=SIM + "Files of up to 60 records; names up to 97 characters without blanks.")
prop("P20", "A layout ends with every node at a finite place, from the right forces",
 "The force on every node and the potential energy equal the pair sums they stand for, however the plane is divided into boxes, and every step moves the nodes by these forces and the drag alone. With a time step small enough for the springs, every layout ends, for every seed, number of steps and network, with all coordinates finite, spanning 0 to 1 where the network has any extent, different components moved apart, and the network, its links and stdout untouched; tightly linked nodes end nearer to each other than unlinked ones.",
 ["schedules", "inputs", "configurations"], "every network (connected or not), starting positions and random draws, numbers of boxes and steps, drag, time step",
 "No test runs a layout; a missing pair, a lost node or a division by zero shows only for some positions.",
 ["src/layout.c", "utils/main_netlayout.c", "utils/main_multinetlayout.c"],
 [("boxes and forces", "src/layout.c CalculateNodeForces/CalculateNodeForces3D, PotentialEnergy/PotentialEnergy3D, AssignBox3D"), ("components and scaling", "src/layout.c ArrangeComponents, NormalizeCoordinates; MDGraphLayout, MDGraphLayout3D, MDGraphLayout2Dp"), ("programs", "utils/main_netlayout.c, utils/main_multinetlayout.c")],
 ["coordinates, velocities and energies; output of the programs"], note=SIM + "Up to 36 nodes and 3000 steps; time steps for which the integration is stable.")
prop("P25", "Small tools report the properties of the network they are given",
 "Programs that count nodes and links, list node properties, compare networks, extract the largest component, summarise a network, give its Laplacian spectrum, the information two groupings share, or the bipartite modularity of a grouping, print values that follow from their input files, once each, and change no input. This holds however the files arrive and whatever memory contained.",
 ["inputs", "histories"], "every pair of input files in the format read, every chunking of the input, every initial memory content",
 "None of these programs has a test; the measures share cached marks and lists whose leftovers depend on memory and on the measure before.",
 ["utils/main_countlinks.c", "utils/main_nodeprop.c", "utils/main_netcompare.c", "utils/main_getgiant.c", "utils/main_netprop.c", "utils/main_lapspec.c", "utils/main_mutualinfo.c", "utils/main_bipartitemodularity.c", "utils/main_bipartitemodularity_w.c", "src/graph.c", "src/modules.c", "src/bipartite.c"],
 [("programs", "utils/main_*.c"), ("measures", "src/graph.c; src/modules.c MutualInformation; src/bipartite.c ModularityBipart*")],
 ["standard output and exit status of each program"], note=SIM + "Whole programs on the simulated disk; up to 14 nodes.")
prop("P26", "Inference programs list every pair once, with its exact score",
 "Each link-reliability, rating-prediction and conflict program lists every pair it should, and only those, exactly once, in the file it names after its input, with scores close to the posterior average over all groupings; scores of one pair over all ratings add up to one. The reconstruction program writes a simple network of the known nodes with the observed number of links.",
 ["schedules", "inputs", "configurations"], "every network or rating file, every seed, every length of the path of the input, every chunking and memory content",
 "Scores are random averages of ten thousand samples; only the exact posterior tells a wrong one, and no test runs these programs.",
 ["reliability", "multiblock", "only_deg", "recommender", "conflict", "src/missing.c", "src/multiblock.c", "src/only_deg.c", "src/sparse_missing.c", "src/recommend.c", "src/conflict.c"],
 [("programs", "main_*.c in reliability, multiblock, only_deg, recommender, conflict"), ("score loops", "src/*.c *LinkScore*")],
 ["score files and standard output"], note=SIM + "Up to 7 nodes or 4+4, where all groupings can be enumerated; tolerance .05 (largest deviation seen .02); flat chains that alternate are only checked for structure.")
prop("P27", "Programs fail cleanly: an error is reported, a success is complete",
 "A program that misses an argument or an input file, reads a malformed network, or meets a failing open, read, write, close or a full disk ends with a non-zero status and never crashes (without memory it may die, but not report success); when it reports success, its results are complete and correct. It never fails without such a cause and never changes its input files.",
 ["fault_sequences", "inputs", "crash_points"], "every program, every position of the fault in the input or output, every error of open, read, write and close, every allocation that fails",
 "No test injects a failing device; a truncated result with exit status 0 is silent loss of data.",
 ["src/tools.c", "src/graph.c", "src/bipartite.c", "src/modules.c", "src/recommend.c", "utils", "reliability", "multiblock", "only_deg", "recommender", "conflict", "netcarto/main_netcarto_legacy.c"],
 [("checked opening and closing of files", "src/tools.c OpenFile/CloseFile"), ("reading of networks", "src/graph.c BuildNetworkFromFile; src/bipartite.c BuildBipartFromFile"), ("statuses", "main_*.c")],
 ["exit status", "output files and standard output"], note=SIM + "One fault per run; netcarto itself is covered by P07. Malformed partition and query files are not promised to be refused.")
prop("P28", "Annealing finds the best groupings of small networks",
 "With slow cooling and fair draws, a bounded number of annealings (netcarto's engine as well as the legacy functions) reaches a grouping of maximal modularity among all groupings allowed, and never a larger value than the maximum; on networks too large to enumerate it reaches at least what climbing by single moves from several starting points reaches, and on cliques joined in a ring at least the grouping into cliques.",
 ["inputs", "schedules", "configurations"], "every network (weighted, disconnected, bipartite projection), module limit, cooling factor, placement and set of moves, under fair random streams",
 "A broken acceptance rule, proposal or cooling still returns valid groupings with consistent values; only the quality over many random runs shows it.",
 ["src/sannealing.c", "src/movements.c", "src/modules.c", "src/partition.c"],
 [("acceptance, proposals, cooling", "src/sannealing.c GeneralSA; src/modules.c SACommunityIdent")], ["returned grouping"],
 note=SIM + "Enumeration of all groupings up to 7 nodes, hill climbing up to 12; at most 60 annealings, over 99% of the runs need one. Rings of 3-7 cliques of 4-7 nodes: at most 3 annealings (12 without collective moves), where none of 1500 calibration runs needed more than 1 (3). A degraded search that still succeeds within them passes.")
